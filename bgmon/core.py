"""
Shared plumbing of the monitors: verdict exceptions, scratch directories, the call wrapper that turns an unexpected
exception of the code under test in to a violation, counters, and the parallel case runner.

Verdicts are three valued.  A case ends as ``held`` (its monitors evaluated something and nothing was refuted),
``violated`` (a monitor refuted the property, with the history that did it) or ``inconclusive`` (harness/environment
problem, watchdog).  The runner never folds the third in to the other two.
"""
import contextlib
import io
import json
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
import zlib
from collections import Counter
from multiprocessing import get_context
from multiprocessing.connection import wait as mpwait

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('BGMON_REPO', '/repo')


class Violation(Exception):
    """The property was refuted by what was observed.  key names the mechanism, used only to match known findings."""

    def __init__(self, message, key=None):
        super().__init__(message)
        self.key = key


class Inconclusive(Exception):
    """The monitor could not decide (environment trouble, watchdog)"""


class CaseTimeout(Inconclusive):
    pass


def prepare_environment():
    """Has to run before bathygrid is imported"""
    os.environ.setdefault('MPLBACKEND', 'Agg')
    os.environ.setdefault('PROJ_NETWORK', 'OFF')
    os.environ.setdefault('OMP_NUM_THREADS', '1')
    os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
    os.environ.setdefault('NUMBA_NUM_THREADS', '1')
    os.environ.setdefault('MPLCONFIGDIR', tempfile.gettempdir())
    os.environ['TZ'] = 'UTC'
    time.tzset()
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import warnings
    warnings.simplefilter('ignore')


def import_bathygrid():
    import bathygrid
    where = os.path.dirname(os.path.abspath(bathygrid.__file__))
    if where != os.path.join(REPO, 'bathygrid'):
        raise Inconclusive('bathygrid imported from {}, expected {}'.format(where, REPO))
    import dask
    dask.config.set(scheduler='synchronous')
    import warnings
    warnings.simplefilter('ignore')
    return bathygrid


class Ctx:
    """
    What a case gets to work with: a random generator, a scratch folder, counters (everything the monitors observed) and
    the event log of the history that is being driven.
    """

    def __init__(self, prop, seed, index, tier):
        import numpy as np
        self.prop, self.seed, self.index, self.tier = prop, seed, index, tier
        self.rng = np.random.default_rng([seed, zlib.crc32(prop.encode()), index])
        self.counters = Counter()
        self.log = []
        self.known = []
        self.signature = set()
        self._scratch = None
        self._nfold = 0

    @property
    def scratch(self):
        if self._scratch is None:
            base = '/dev/shm' if os.access('/dev/shm', os.W_OK) and shutil.disk_usage('/dev/shm').free > 2 * 2 ** 30 else None
            self._scratch = tempfile.mkdtemp(prefix='bgmon_', dir=base)
        return self._scratch

    def folder(self, create=False, stem='g'):
        self._nfold += 1
        path = os.path.join(self.scratch, '{}{}'.format(stem, self._nfold))
        if create:
            os.makedirs(path)
        return path

    def close(self):
        if self._scratch and os.path.isdir(self._scratch):
            shutil.rmtree(self._scratch, ignore_errors=True)
        self._scratch = None

    # ---- choices
    def pick(self, options, p=None):
        return options[int(self.rng.choice(len(options), p=p))]

    def chance(self, prob):
        return bool(self.rng.random() < prob)

    def integer(self, low, high):
        """inclusive"""
        return int(self.rng.integers(low, high + 1))

    # ---- observations
    def saw(self, what, n=1):
        self.counters[what] += int(n)

    def mark(self, *sig):
        self.signature.add(tuple(str(s) for s in sig))

    def event(self, text):
        self.log.append(str(text))

    def require(self, cond, message, key=None):
        self.counters['monitor_evaluations'] += 1
        if not cond:
            raise Violation(message() if callable(message) else message, key)

    def known_finding(self, key, message):
        self.known.append((key, message))

    # ---- calls in to the code under test
    def sut(self, what, fn, *args, **kwargs):
        """Run a call that has to succeed.  Any exception is a violation: the workload only makes valid calls here."""
        self.event(what)
        self.counters['calls'] += 1
        out = io.StringIO()
        try:
            with contextlib.redirect_stdout(out):
                return fn(*args, **kwargs)
        except Violation:
            raise
        except Inconclusive:
            raise
        except (MemoryError, KeyboardInterrupt):
            raise
        except OSError as e:
            if e.errno in (28, 12, 23, 24):  # no space, no memory, too many files
                raise Inconclusive('environment: {!r}'.format(e))
            raise Violation('{} raised {!r} at {}'.format(what, e, _where(e)))
        except Exception as e:
            if type(e).__module__.split('.')[0] == 'distributed':   # lost workers, closed connections
                raise Inconclusive('cluster: {!r}'.format(e))
            raise Violation('{} raised {!r} at {}'.format(what, e, _where(e)))

    def rejects(self, what, fn, *args, **kwargs):
        """Run a call that has to be refused with an exception, returns the exception or None if it was accepted"""
        self.event(what + ' (must be rejected)')
        self.counters['calls'] += 1
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                fn(*args, **kwargs)
        except (MemoryError, KeyboardInterrupt, Inconclusive):
            raise
        except Exception as e:
            return e
        return None


def _where(e):
    frames = [f for f in traceback.extract_tb(e.__traceback__) if 'bathygrid' in f.filename]
    return '{}:{}'.format(os.path.basename(frames[-1].filename), frames[-1].name) if frames else 'unknown'


# ---------------------------------------------------------------------------------------------------------- runner

def _alarm(signum, frame):
    raise CaseTimeout('case watchdog fired')


def run_case(check, prop, seed, index, tier):
    """Run one case, returns a plain dict"""
    ctx = Ctx(prop, seed, index, tier)
    res = {'index': index, 'verdict': 'held', 'message': '', 'key': None}
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(check.get('case_timeout', 120)))
    t0 = time.time()
    try:
        check['case'](ctx)
    except Violation as v:
        res.update(verdict='violated', message=str(v), key=v.key)
    except Inconclusive as e:
        res.update(verdict='inconclusive', message=repr(e))
    except MemoryError as e:
        res.update(verdict='inconclusive', message=repr(e))
    except OSError as e:
        if e.errno in (28, 12, 23, 24):
            res.update(verdict='inconclusive', message=repr(e))
        else:
            res.update(verdict='violated', message='what was observed is malformed: ' + traceback.format_exc(limit=-4))
    except (TypeError, ValueError, IndexError, KeyError, AttributeError, AssertionError, ZeroDivisionError) as e:
        # the monitor could not even read the result it was given.  On the unchanged tree this never happens.
        res.update(verdict='violated', message='what was observed is malformed: ' + traceback.format_exc(limit=-4))
    except Exception as e:
        mine = os.path.join(REPO, 'bathygrid') + os.sep
        inside = isinstance(e, (NameError, NotImplementedError)) and any(f.filename.startswith(mine) for f in traceback.extract_tb(e.__traceback__))
        res.update(verdict='violated' if inside else 'inconclusive', message=traceback.format_exc(limit=-6))
    finally:
        signal.alarm(0)
        ctx.close()
    res['wall'] = time.time() - t0
    res['counters'] = dict(ctx.counters)
    res['signature'] = sorted(ctx.signature)
    res['known'] = ctx.known
    res['log'] = ctx.log[-400:]
    res['digest'] = zlib.crc32('\n'.join(ctx.log).encode())
    return res


def _worker(conn, check, prop, seed, tier, indices, deadline):
    try:
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 2)
        if check.get('setup'):
            check['setup']()
        for i in indices:
            if time.time() > deadline:
                break
            r = run_case(check, prop, seed, i, tier)
            if r['verdict'] == 'held' and i >= 3:
                r['log'] = []
            conn.send(r)
    except Exception:
        with contextlib.suppress(Exception):
            conn.send({'index': -1, 'verdict': 'inconclusive', 'message': 'worker: ' + traceback.format_exc(), 'key': None,
                       'counters': {}, 'signature': [], 'known': [], 'log': [], 'wall': 0})
    finally:
        with contextlib.suppress(Exception):
            if check.get('teardown'):
                check['teardown']()
        with contextlib.suppress(Exception):
            conn.send(None)
            conn.close()
        os._exit(0)


def run_cases(check, prop, seed, tier, ncases, soft_wall, hard_wall, nproc):
    """Fork nproc workers, stripe the cases over them, collect the results until all are done or the wall is hit"""
    mp = get_context('fork')
    start = time.time()
    procs, conns = [], []
    for w in range(nproc):
        mine, theirs = mp.Pipe(duplex=False)
        p = mp.Process(target=_worker, args=(theirs, check, prop, seed, tier, list(range(w, ncases, nproc)), start + soft_wall))
        p.start()
        theirs.close()
        procs.append(p)
        conns.append(mine)
    results, open_conns, lost = [], list(conns), 0
    stop_early = False
    while open_conns:
        left = start + hard_wall - time.time()
        if left <= 0:
            break
        for c in mpwait(open_conns, timeout=min(left, 1.0)):
            try:
                r = c.recv()
            except (EOFError, OSError):
                open_conns.remove(c)
                lost += 1
                continue
            if r is None:
                open_conns.remove(c)
            else:
                results.append(r)
                if r['verdict'] == 'violated':
                    stop_early = True
        if stop_early and sum(r['verdict'] == 'violated' for r in results) >= 1:
            break
    unfinished = len(open_conns) if not stop_early else 0
    for p in procs:
        if p.is_alive() and (stop_early or unfinished):
            p.terminate()
    for p in procs:
        p.join(5)
        if p.is_alive():
            p.kill()
            p.join()
    return results, lost + unfinished
