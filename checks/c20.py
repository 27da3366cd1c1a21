"""C20: parallel runs equal serial runs whatever the workers do."""
TECHNIQUE = ("stateless exploration of worker schedules: a controlled pool stands in for multiprocessing's and every "
             "assignment of work to workers and every execution order is a choice point (pickled hand-over, per-worker "
             "state); plus every failure point of a model evaluation; oracle = the serial run with the same draws; "
             "conformance of the controlled pool = the same runs on real worker processes")
NOTE = ("Runs of 4-6 walkers with 2-3 workers; all schedules of a one-step run with at most 3 deviations, at most 2 for runs "
        "with burn-in and continuation (thorough 4/3); failure of every single evaluation in every phase; pool life cycle "
        "in every history of get/run/continue; real pools with 1-4 processes.")

import contextlib
import itertools
import multiprocessing
import multiprocessing.pool
import pickle

import numpy as np
from astropy import units as u

from mc import env  # noqa
from mc import chain as C
from mc.common import Raised, observe
from mc.harness import Chooser, Violation
from mc.lik import quiet
import naima.core
import naima.plot
from naima.core import get_sampler, run_sampler
from naima.models import ExponentialCutoffPowerLaw, InverseCompton, PowerLaw
from naima.plot import plot_fit

WORKER = None  # which simulated worker is executing
FAIL = [None]  # (count of evaluations so far, evaluation that fails, kind of failure)
_OBJ = {}


class ModelError(Exception):
    pass


KINDS = {"ModelError": ModelError, "UnitConversionError": u.UnitConversionError, "LinAlgError": np.linalg.LinAlgError}
# not StopIteration: that ends the iteration emcee itself makes over the walkers
for _k in ("ArithmeticError", "ZeroDivisionError", "OverflowError", "FloatingPointError", "ValueError", "TypeError", "KeyError",
           "IndexError", "LookupError", "AttributeError", "NameError", "AssertionError", "NotImplementedError", "RuntimeError",
           "RecursionError", "MemoryError", "OSError", "FileNotFoundError", "TimeoutError", "EOFError", "BufferError",
           "ImportError", "UserWarning", "RuntimeWarning"):
    KINDS[_k] = getattr(__import__("builtins"), _k)


# ---------------------------------------------------------------- model functions (module level: picklable)
def _tick():
    if FAIL[0] is not None:
        FAIL[0][0] += 1
        if FAIL[0][0] == FAIL[0][1]:
            raise KINDS[FAIL[0][2] if len(FAIL[0]) > 2 else "ModelError"]("evaluation %d" % FAIL[0][1])


def m_plain(p, data):
    _tick()
    f = C.fluxes(p, data["energy"].to("TeV").value) * C.FU
    return f, p[0] * u.erg


def m_array(p, data):
    _tick()
    return C.fluxes(p, data["energy"].to("TeV").value) * C.FU


def m_naima(p, data):
    """One naima model object per process, with its caches, reused for every evaluation."""
    _tick()
    m = _OBJ.setdefault(WORKER, ExponentialCutoffPowerLaw(1e-12 * C.FU, 1 * u.TeV, 2.0, 20 * u.TeV))
    m._memoize = True
    m.amplitude = p[0] * 1e-12 * C.FU
    m.alpha = p[1]
    return m(data), (np.array([1.0, 3]) * u.TeV, m(np.array([1.0, 3]) * u.TeV))


_IC = {}


def m_ic(p, data):
    _tick()
    if WORKER not in _IC:
        pl = PowerLaw(1e36 / u.eV, 1 * u.TeV, 2.0)
        _IC[WORKER] = InverseCompton(pl, seed_photon_fields=["CMB"], nEed=6, Eemin=1 * u.TeV, Eemax=60 * u.TeV)
    ic = _IC[WORKER]
    ic.particle_distribution.amplitude = p[0] * 2e33 / u.eV
    ic.particle_distribution.alpha = p[1]
    return ic.flux(data, distance=2 * u.kpc).to(C.FU), ic.compute_We(Eemin=2 * u.TeV)


def m_mutating(p, data):
    """A model that scribbles on a copy of what it is given."""
    _tick()
    q = np.array(p)
    q[1] = q[1] + 0.0
    return C.fluxes(q, data["energy"].to("TeV").value) * C.FU, q


def m_columns(p, data):
    """Hands back what it was given: columns of the data table."""
    _tick()
    f = C.fluxes(p, data["energy"].to("TeV").value) * C.FU
    return f, (data["energy"], f * 2), data["flux"], [data["energy"], (data["flux"], 2 * data["energy"])]


def p_box(p):
    return 0.0 if (0.2 < p[0] < 6 and 1.2 < p[1] < 2.9) else -np.inf


MODELS = dict(plain=m_plain, array=m_array, naima=m_naima, mutating=m_mutating, ic=m_ic, columns=m_columns)


def reset_objects():
    _OBJ.clear()
    _IC.clear()
    for m in (ExponentialCutoffPowerLaw, PowerLaw):
        pass


# ---------------------------------------------------------------- the controlled pool
class FakePool:
    """Same contract as multiprocessing.Pool: chunks, pickling both ways, results in input order,
    an exception of a task is raised by the call, no work after close()."""

    live = []
    choose = staticmethod(lambda n, label="": 0)
    counter = 0

    def __init__(self, processes=None, *a, **k):
        if processes is not None and processes < 1:
            raise ValueError("Number of processes must be at least 1")
        self.n = min(processes or 2, 3)
        self.state = "open"
        FakePool.counter += 1
        self.id = FakePool.counter
        FakePool.live.append(self)

    def _run(self, func, items, star, chunksize, ordered=True):
        global WORKER
        if self.state != "open":
            raise ValueError("Pool not running")
        items = list(items)
        if chunksize is None:
            chunksize, extra = divmod(len(items), self.n * 4)
            chunksize += 1 if extra else 0
        chunksize = max(1, chunksize)
        chunks = [(i, pickle.dumps((func, items[i:i + chunksize]))) for i in range(0, len(items), chunksize)]
        out, err = [None] * len(items), None
        done = []
        while chunks:
            k = self.choose(len(chunks), "order") if len(chunks) <= 4 else self.choose(2, "order") * (len(chunks) - 1)
            start, payload = chunks.pop(k)
            w = self.choose(self.n, "worker")
            WORKER = (self.id, w)
            try:
                f, args = pickle.loads(payload)
                try:
                    res = [f(*x) if star else f(x) for x in args]
                    out[start:start + len(res)] = pickle.loads(pickle.dumps(res))
                    done.append((start, len(res)))
                except Exception as e:  # noqa
                    err = err or pickle.loads(pickle.dumps(e))
            finally:
                WORKER = None
        if err is not None:
            raise err
        return out if ordered else [out[s + i] for s, n in done for i in range(n)]

    def map(self, func, it, chunksize=None):
        return self._run(func, it, False, chunksize)

    def starmap(self, func, it, chunksize=None):
        return self._run(func, it, True, chunksize)

    def imap(self, func, it, chunksize=1):
        return iter(self._run(func, it, False, chunksize))

    def imap_unordered(self, func, it, chunksize=1):
        return iter(self._run(func, it, False, chunksize, ordered=False))

    class _Async:
        def __init__(self, f):
            self._f = f

        def get(self, timeout=None):
            return self._f()

        def wait(self, timeout=None):
            pass

    def map_async(self, func, it, chunksize=None, callback=None, error_callback=None):
        r = self._run(func, it, False, chunksize)
        return self._Async(lambda: r)

    def starmap_async(self, func, it, chunksize=None, callback=None, error_callback=None):
        r = self._run(func, it, True, chunksize)
        return self._Async(lambda: r)

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        r = observe(self._run, func, [args], True, 1)

        def get():
            if isinstance(r, Raised):
                raise ModelError(r.text)
            return r[0]

        return self._Async(get)

    def apply(self, func, args=(), kwds={}):
        return self._run(func, [args], True, 1)[0]

    def close(self):
        if self.state == "open":
            self.state = "closed"

    def terminate(self):
        self.state = "terminated"

    def join(self):
        if self.state == "open":
            raise ValueError("Pool is still running")
        self.state = "released"

    def __enter__(self):
        if self.state != "open":
            raise ValueError("Pool not running")
        return self

    def __exit__(self, *a):
        self.terminate()


@contextlib.contextmanager
def pools(choose):
    mods = [(multiprocessing, "Pool"), (multiprocessing.pool, "Pool")]
    mods += [(m, "Pool") for m in (naima.core, naima.plot) if hasattr(m, "Pool")]
    old = [getattr(m, n) for m, n in mods]
    FakePool.live = []
    FakePool.counter = 0
    FakePool.choose = staticmethod(choose)
    for m, n in mods:
        setattr(m, n, FakePool)
    reset_objects()
    try:
        yield FakePool
    finally:
        for (m, n), o in zip(mods, old):
            setattr(m, n, o)
        reset_objects()


def zero(n, label=""):
    return 0


P0 = [2.2, 1.9]
TABLE = C.data_table()


def play(model, threads, nw, nburn, runs, draws=None, release=None, guess=False, prefit=False):
    """One history; returns what a user can see of every run."""
    out = []
    script = C.Script(draws or zero)
    with C.scripted(script):
        s, pos = get_sampler(data_table=TABLE, p0=list(P0), model=MODELS[model], prior=p_box, nwalkers=nw, nburn=nburn,
                             guess=guess, prefit=prefit, labels=["norm", "index"], threads=threads)
        for n in runs:
            s, pos = run_sampler(sampler=s, pos=pos, nrun=n)
            if release:
                release()
            out.append((s.get_chain().copy(), s.get_log_prob().copy(), s.get_blobs().copy(),
                        np.array(s.acceptance_fraction), dict(s.run_info)))
    return out


def blob_same(a, b):
    if isinstance(b, (tuple, list)):
        return isinstance(a, (tuple, list)) and len(a) == len(b) and all(blob_same(x, y) for x, y in zip(a, b))
    if isinstance(b, u.Quantity):
        return isinstance(a, u.Quantity) and a.unit == b.unit and np.array_equal(a.value, b.value)
    return type(a) is type(b) and (np.array_equal(a, b) or (np.all(np.isnan(a)) and np.all(np.isnan(b))))


def differ(got, want):
    if len(got) != len(want):
        return "number of runs"
    for k, (g, w) in enumerate(zip(got, want)):
        for name, i in (("chain", 0), ("log-probabilities", 1), ("acceptance", 3)):
            if g[i].shape != w[i].shape or not np.array_equal(g[i], w[i]):
                return "%s of run %d" % (name, k)
        if g[2].shape != w[2].shape:
            return "shape of the outputs of run %d" % k
        for a, b in zip(g[2].reshape(-1, g[2].shape[-1]), w[2].reshape(-1, w[2].shape[-1])):
            for x, y in zip(a, b):
                if not blob_same(x, y):
                    return "outputs of run %d: %r instead of %r" % (k, x, y)
        if repr(g[4]) != repr(w[4]):
            return "run information of run %d" % k
    return None


def run(ck):
    ck.bounds = dict(walkers="4-6", workers="2-3 (real 1-4)", deviations="3 / 2 (thorough 4 / 3)")
    serial = {}

    def reference(*a):
        if a not in serial:
            model, nw, nburn, runs = a
            with pools(zero):
                serial[a] = play(model, 1, nw, nburn, runs)
        return serial[a]

    def released():
        bad = [p.state for p in FakePool.live if p.state != "released"]
        if bad:
            raise Violation("the worker pool is %s after the run" % bad[0])

    def one(ck, cfg, ch):
        model, threads, nw, nburn, runs = cfg
        want = reference(model, nw, nburn, runs)
        with pools(ch.choose):
            got = play(model, threads, nw, nburn, runs, release=released)
            if not FakePool.live and threads > 1:
                raise Violation("no worker pool was used with threads=%d" % threads)
        ck.step(len(runs) + nburn)
        d = differ(got, want)
        if d:
            raise Violation("parallel run differs from the serial one: %s" % d)
        ck.outcome([x[0].tolist() for x in got])

    # A. schedules
    def expand(ck, cfg, base, prefix, left):
        ch = Chooser(prefix)
        key = "%s:%s" % (base, ".".join("%d=%d" % (i, c) for i, (c, _, _) in enumerate(prefix) if c) or "default")
        if ck.only is not None and ck.only != key:
            observe(one, ck, cfg, ch)
        else:
            ck.case(key, one, ck, cfg, ch)
        ck.state((base, ch.vector()))
        if left <= 0 or ck.stop:
            return
        bs = [(c, p[0], p[1]) for c, p in zip(ch.choices, ch.points)]
        for i in range(len(prefix), len(ch.points)):
            for a in range(1, ch.points[i][0]):
                expand(ck, cfg, base, bs[:i] + [(a, ch.points[i][0], ch.points[i][1])], left - 1)

    def shard(ck, it):
        cfg, base, first, bound = it
        expand(ck, cfg, base, first, bound)

    def tree(cfg, bound):
        base = "sched:%s" % "-".join(str(x) for x in cfg[:4]) + ":" + "".join(map(str, cfg[4]))
        ch = Chooser()
        observe(one, ck, cfg, ch)
        bs = [(c, p[0], p[1]) for c, p in zip(ch.choices, ch.points)]
        out = [(cfg, base, [], 0)]
        for i, (n, lab) in enumerate(ch.points):
            for a in range(1, n):
                out.append((cfg, base, bs[:i] + [(a, n, lab)], bound - 1))
        return out

    q = ck.quick
    items = tree(("naima", 2, 4, 0, (1,)), 3 if q else 4)
    items += tree(("plain", 3, 4, 0, (1,)), 2 if q else 3)
    items += tree(("naima", 3, 4, 1, (1, 1)), 1 if q else 2)
    items += tree(("ic", 2, 4, 0, (1, 1)), 1 if q else 2)
    for m in ("plain", "array", "mutating", "columns"):
        items += tree((m, 2, 4, 1, (2,)), 1 if q else 2)
        items += tree((m, 2, 6, 0, (1, 1)), 1 if q else 2)
    items += tree(("naima", 2, 10, 1, (1,)), 1)
    ck.parallel(shard, items)

    # B. every evaluation fails once
    def failing(ck, it):
        model, threads, nw, nburn, runs, at, kind = it
        key = "fail:%s:%d:%d:%d:%s:%d:%s" % (model, threads, nw, nburn, "".join(map(str, runs)), at, kind)

        def go():
            ck.state(it)
            FAIL[0] = [0, at, kind]
            try:
                with pools(zero):
                    r = observe(play, model, threads, nw, nburn, runs)
                    reached = FAIL[0][0] >= at
                    states = [p.state for p in FakePool.live]
            finally:
                FAIL[0] = None
            ck.step()
            ck.outcome((repr(r)[:60], tuple(states)))
            if reached and not (isinstance(r, Raised) and r.kind == KINDS[kind].__name__):
                raise Violation("failure of evaluation %d gave %s" % (at, repr(r)[:120]))
            if not reached and isinstance(r, Raised):
                raise Violation("run without failures raised %r" % (r,))
            if [x for x in states if x not in ("released", "terminated")]:
                raise Violation("the worker pool is left %s by a failing run" % states[0])

        ck.case(key, go)

    items = [(m, th, nw, nb, runs, at, "ModelError") for m in ("plain", "naima") for th in (1, 2) for nw in (4, 6)
             for nb, runs in ((0, (1,)), (1, (1,)), (1, (1, 1)), (2, (2,))) for at in range(1, 32 if q else 40)]
    items += [(m, th, 4, 1, (1, 1), at, k) for m in ("plain", "array") for th in (1, 2) for k in KINDS for at in (1, 3, 6, 11)]
    ck.parallel(failing, items)

    # C. histories of phases: released after each run, usable again
    def hist(ck, it):
        model, threads, nburn, runs = it
        key = "hist:%s:%d:%d:%s" % (model, threads, nburn, "".join(map(str, runs)))
        ck.case(key, one, ck, (model, threads, 4, nburn, runs), Chooser())
        ck.state(it)

    ck.parallel(hist, [(m, th, nb, runs) for m in MODELS for th in (1, 2, 3, 8) for nb in (0, 1, 2)
                       for r in (1, 2, 3) for runs in itertools.product((1, 2), repeat=r)])

    # D. samples recomputed for plots
    def plots(ck, it):
        model, threads, confs, nsamp, which = it
        key = "plot:%s:%s:%s:%s:%d" % (model, threads, confs, nsamp, which)

        def go():
            import matplotlib.pyplot as plt

            ck.state(it)

            def lines(th, choose):
                with pools(choose):
                    script = C.Script(zero)
                    with C.scripted(script):
                        s, pos = get_sampler(data_table=TABLE, p0=list(P0), model=MODELS[model], prior=p_box, nwalkers=4,
                                             nburn=0, guess=False, labels=["norm", "index"], threads=1)
                        s, pos = run_sampler(sampler=s, pos=pos, nrun=3)
                    np.random.seed(5)
                    f = plot_fit(s, n_samples=nsamp, confs=None if confs is None else list(confs), threads=th,
                                 e_range=[0.3, 20] * u.TeV, e_npoints=4, plotdata=True)
                    out = []
                    for ax in f.axes:
                        out += [np.array(l.get_data()) for l in ax.lines]
                        out += [p.vertices.copy() for c in ax.collections for p in c.get_paths()]
                    plt.close(f)
                    return out, [p.state for p in FakePool.live]

            want, _ = lines(1, zero)
            n = [0]

            def choose(k, label=""):
                n[0] += 1
                return (n[0] * which + (n[0] // 7)) % k if which else 0

            got, states = lines(threads, choose)
            ck.step(2)
            if len(got) != len(want) or any(a.shape != b.shape or not np.array_equal(a, b, equal_nan=True)
                                            for a, b in zip(got, want)):
                raise Violation("the plot drawn with threads=%s differs from the one drawn with one thread" % threads)
            if [x for x in states if x not in ("released", "terminated")]:
                raise Violation("worker pool left %s" % states)
            ck.outcome(len(got))

        ck.case(key, go)

    ck.parallel(plots, [(m, th, cf, ns, w) for m in ("plain", "array", "naima", "columns") for th in (None, 2, 3)
                        for cf, ns in ((None, 5), ((1, 2), 5)) for w in range(4 if q else 12)])

    # E. the same on real worker processes (conformance of the controlled pool)
    def real(it):
        model, threads, nw, nburn, runs = it
        key = "real:%s:%d:%d:%d:%s" % (model, threads, nw, nburn, "".join(map(str, runs)))

        def go():
            want = reference(model, nw, nburn, runs)
            before = set(p.pid for p in multiprocessing.active_children())
            reset_objects()
            got = play(model, threads, nw, nburn, runs)
            ck.step()
            d = differ(got, want)
            if d:
                raise Violation("run on %d processes differs from the serial one: %s" % (threads, d))
            left = set(p.pid for p in multiprocessing.active_children()) - before
            if left:
                raise Violation("%d worker processes left after the run" % len(left))
            ck.state(it)

        ck.case(key, go)

    for it in [(m, th, nw, nb, runs) for m in MODELS for th, nw in ((2, 4), (3, 6), (4, 10)) for nb, runs in ((1, (2, 1)),)]:
        real(it)

    def realfail(it):
        model, threads, at, nb = it
        key = "realfail:%s:%d:%d:%d" % it

        def go():
            FAIL[0] = [0, at]
            before = set(p.pid for p in multiprocessing.active_children())
            try:
                r = observe(play, model, threads, 4, nb, (3,))
            finally:
                FAIL[0] = None
            if not (isinstance(r, Raised) and r.kind == "ModelError"):
                raise Violation("failure in a worker process gave %s" % repr(r)[:100])
            left = set(p.pid for p in multiprocessing.active_children()) - before
            if left:
                raise Violation("%d worker processes left after a failing run" % len(left))
            ck.state(it)
            ck.step()

        ck.case(key, go)

    for it in [(m, th, at, nb) for m in ("plain", "naima") for th in (2, 4) for at in (2, 3) for nb in (0, 1)]:
        realfail(it)
