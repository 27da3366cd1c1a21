"""C19: stored samples are truthful under every outcome of the random draws."""
TECHNIQUE = ("stateless exploration of the random draws of real MCMC runs: every draw (starting ball, ensemble split, "
             "partners, stretch factors, acceptance) is a choice point; deviation-bounded enumeration of choice vectors; "
             "oracle = plain re-implementation of the likelihood and of the ensemble move fed with the same draws")
NOTE = ("Runs of 4-6 walkers, 1-3 parameters, burn-in 0-1, one to three consecutive runs of 1-2 steps; all choice vectors "
        "with at most 2 deviations from the default draws (3 in the thorough tier) on two base configurations, at most 1 on "
        "the product of data, prior and model-output structures; all histories of run lengths with total up to 4.")

import itertools

import numpy as np
from astropy import units as u

from mc import env  # noqa
from mc import chain as C
from mc.common import observe, Raised, same
from mc.harness import Chooser, Violation, explore
from naima.core import get_sampler, run_sampler
from naima.models import ExponentialCutoffPowerLaw, PowerLaw
from naima.utils import validate_data_table


# ------------------------------------------------------------------ model functions
def flux_q(p, data):
    return C.fluxes(p, data["energy"].to("TeV").value) * C.FU


GRID = np.array([0.2, 1.0, 7.0, 30.0])


def part(p):
    return (GRID * u.TeV, p[0] * GRID**-1.5 / u.erg)


STRUCT = {
    "array": lambda p, d, f: f,
    "tuple1": lambda p, d, f: (f,),
    "list1": lambda p, d, f: [f],
    "comp": lambda p, d, f: (f, 0.25 * f),
    "comp3": lambda p, d, f: (f, 0.25 * f, 0.75 * f),
    "list": lambda p, d, f: [f, p[0] * u.erg],
    "scalarq": lambda p, d, f: (f, p[0] * u.erg, p[1] * u.TeV if len(p) > 1 else 1 * u.TeV),
    "float": lambda p, d, f: (f, float(p[0])),
    "npfloat": lambda p, d, f: (f, p[0] * 2),
    "int": lambda p, d, f: (f, int(p[0] * 1e6)),
    "pair": lambda p, d, f: (f, part(p)),
    "pairs": lambda p, d, f: (f, part(p), (GRID * u.keV, p[-1] * GRID * u.W)),
    "same": lambda p, d, f: (f, (d["energy"], f)),
    "listpair": lambda p, d, f: (f, list(part(p)), p[0] * u.erg),
    "ndarray": lambda p, d, f: (f, np.arange(len(f)) * p[0]),
    "pars": lambda p, d, f: (f, p),
    "string": lambda p, d, f: (f, "n=%r" % float(p[0])),
    "dict": lambda p, d, f: (f, {"n": float(p[0])}),
    "none": lambda p, d, f: (f, None, p[0] * u.s),
    "mixed": lambda p, d, f: (f, 3 * f, part(p), p[0] * u.erg, float(p[-1]), (d["energy"], f)),
    "fluxunit": lambda p, d, f: (f.to("1/(m2 s GeV)"), p[0] * u.erg),
    "sed": lambda p, d, f: ((f * d["energy"].to("TeV") ** 2).to("erg/(cm2 s)"), p[0] * u.erg),
    "sedonly": lambda p, d, f: (f * d["energy"].to("TeV") ** 2).to("keV/(m2 s)"),
}

_PL = PowerLaw(1e-12 * C.FU, 1 * u.TeV, 2.0)
_PL._memoize = True


def pl_model(p, data):
    """A model that keeps one naima model object and moves its parameters, as in the examples."""
    _PL.amplitude = p[0] * 1e-12 * C.FU
    _PL.alpha = p[1] if len(p) > 1 else 2.0
    return _PL(data["energy"]), _PL(GRID * u.TeV)[1]


def pl_fresh(p, data):
    m = PowerLaw(p[0] * 1e-12 * C.FU, 1 * u.TeV, p[1] if len(p) > 1 else 2.0)
    return m(data["energy"]), m(GRID * u.TeV)[1]


def make_model(kind):
    if kind == "naima":
        return pl_model, pl_fresh
    f = STRUCT[kind]

    def model(p, data):
        return f(p, data, flux_q(p, data))

    return model, model


PRIORS = {
    "none": None,
    "box": lambda p: 0.0 if (0.2 < p[0] < 6 and (len(p) < 2 or 1.2 < p[1] < 2.9)) else -np.inf,
    "gauss": lambda p: -np.inf if p[0] <= 0 else -0.5 * ((p[-1] - 2.0) / 0.4) ** 2 - 0.25,
    "flat": lambda p: 0.0,
}
P0 = {1: [1.9], 2: [2.2, 1.9], 3: [2.2, 1.9, 20.0]}
DATA = {"df": dict(), "sed": dict(sed=True), "noul": dict(ul=False), "kev": dict(eunit=u.keV)}


def outputs(m):
    """The outputs of a model function as a list (a bare spectrum or 1-sequence is one output)."""
    return list(m) if isinstance(m, (tuple, list)) else [m]


def out_diff(got, want):
    if isinstance(want, (tuple, list)):
        if not isinstance(got, (tuple, list)) or len(got) != len(want):
            return "%r instead of a sequence of %d" % (type(got).__name__, len(want))
        for a, b in zip(got, want):
            d = out_diff(a, b)
            if d:
                return d
        return None
    if isinstance(want, (str, dict, type(None))):
        return None if type(got) is type(want) and got == want else "%r instead of %r" % (got, want)
    if isinstance(want, u.Quantity) != isinstance(got, u.Quantity):
        return "%s instead of %s" % (type(got).__name__, type(want).__name__)
    return same(got, want, 1e-10)


class World:
    """One run configuration and its reference."""

    def __init__(self, ndim, struct, prior, data, nw=4):
        self.nd, self.nw = ndim, nw
        self.model, self.fresh = make_model(struct)
        self.prior = PRIORS[prior]
        self.table = C.data_table(**DATA[data])
        self.data = validate_data_table(self.table)
        self.p0 = P0[ndim]

    def lnp(self, p):
        pr = 0.0 if self.prior is None else self.prior(p)
        if pr == -np.inf:
            return pr
        return C.ref_ll(C.fluxes(p, self.data["energy"].to("TeV").value), self.data) + pr

    def start(self, nburn, **kw):
        return get_sampler(data_table=self.table, p0=list(self.p0), model=self.model, prior=self.prior,
                           nwalkers=self.nw, nburn=nburn, guess=False, threads=1, **kw)

    def check_samples(self, s, chain, lp, blobs, what):
        for st in range(chain.shape[0]):
            for w in range(chain.shape[1]):
                p = chain[st, w]
                want = self.lnp(p)
                if not (want == lp[st, w] or abs(want - lp[st, w]) <= 1e-9 * max(1.0, abs(want))):
                    raise Violation("%s: step %d walker %d at %s has log-probability %r instead of %r"
                                    % (what, st, w, p, lp[st, w], want))
                if st and np.any(chain[st - 1, w] != p) and not np.isfinite(lp[st, w]):
                    raise Violation("%s: step %d walker %d moved to zero probability" % (what, st, w))
                out = outputs(self.fresh(np.array(p), self.data))
                got = blobs[st][w]
                if len(got) < len(out):
                    raise Violation("%s: %d stored outputs instead of %d" % (what, len(got), len(out)))
                for k, o in enumerate(out):
                    d = out_diff(got[k], o)
                    if d:
                        raise Violation("%s: step %d walker %d output %d is not that of its position %s: %s"
                                        % (what, st, w, k, p, d))


def check_sampler(W, s, pos, nrun, what):
    chain, lp, bl = s.get_chain(), s.get_log_prob(), s.get_blobs()
    if chain.shape != (nrun, W.nw, W.nd):
        raise Violation("%s: %s samples stored instead of %s" % (what, chain.shape, (nrun, W.nw, W.nd)))
    W.check_samples(s, chain, lp, bl, what)
    if np.any(pos.coords != chain[-1]) or np.any(pos.log_prob != lp[-1]):
        raise Violation("%s: the returned position is not the last stored one" % what)
    for w in range(W.nw):
        for a, b in zip(pos.blobs[w], bl[-1][w]):
            d = out_diff(a, b) if not (isinstance(b, float) and np.isnan(b)) else None
            if d:
                raise Violation("%s: returned outputs differ from the last stored: %s" % (what, d))
    return chain, lp


def near(a, b):
    return np.shape(a) == np.shape(b) and bool(np.all((a == b) | (np.abs(a - b) <= 1e-9 * (1 + np.abs(b)))))


def history(ck, W, ch, nburn, runs, kw=None):
    """Burn-in and consecutive runs under one choice vector."""
    script = C.Script(ch.choose)
    got = []
    with C.scripted(script):
        s, pos = W.start(nburn, **(kw or {}))
        marks = [len(script.trace)]
        start = np.array(pos.coords)
        for n in runs:
            before = np.array(pos.coords)
            s, pos = run_sampler(sampler=s, pos=pos, nrun=n)
            got.append((n, before, s.get_chain().copy(), s.get_log_prob().copy(),
                        np.mean(s.acceptance_fraction)))
            check_sampler(W, s, pos, n, "run of %d steps" % n)
            marks.append(len(script.trace))
            if s.run_info["n_run"] != n or s.run_info["n_burn"] != nburn or s.run_info["n_walkers"] != W.nw:
                raise Violation("recorded run information %r does not describe the run" % (s.run_info,))
            if not near(s.run_info["p0_burn_median"], np.median(start, axis=0)):
                raise Violation("recorded median after burn-in %r instead of %r"
                                % (s.run_info["p0_burn_median"], np.median(start, axis=0)))
            ck.step(n)
    # the whole history re-done by the reference move
    if len(script.normals) == W.nw * W.nd:
        p0 = np.array(W.p0, dtype=float)
        ball = p0 * (1 + 0.1 * np.array(script.normals).reshape(W.nw, W.nd))
    elif nburn == 0:
        ball = start
    else:
        return got  # not drawn from the patched sources: positions cannot be predicted
    tr = iter(script.trace)
    _, _, _, x, lp = C.stretch_chain(ball, W.lnp, tr, nburn)
    if not near(start, x):
        raise Violation("the positions after %d burn-in steps are not those of the draws" % nburn)
    for n, before, chain, lps, af in got:
        if not near(before, x):
            raise Violation("a run does not start where the previous one ended")
        c, l, acc, x, lp = C.stretch_chain(x, W.lnp, tr, n)
        if not near(chain, c) or not near(lps, l):
            raise Violation("the stored chain is not the one these draws lead to")
        if not near(af, np.mean(acc) / n):
            raise Violation("acceptance fraction %r instead of %r" % (af, np.mean(acc) / n))
    ck.outcome([g[2].tolist() for g in got])
    return got


def run(ck):
    ck.bounds = dict(walkers="4-6", parameters="1-3", steps="<= 4", deviations="2 on the base, 1 on the product (thorough 3/2)",
                     structures=len(STRUCT) + 1)

    # A. all draws, two base configurations; the tree is expanded once from the default vector (its choice points), then one shard per first deviation
    def shards(cfg, nburn, runs, bound):
        W = World(*cfg)
        pts = []

        def rec(n, label):
            pts.append((n, label))
            return 0

        class Ch:
            choose = staticmethod(rec)

        observe(history, ck, W, Ch, nburn, runs)  # judged below as the default case
        out = [(cfg, nburn, runs, bound, None)]
        for i, (n, lab) in enumerate(pts):
            for alt in range(1, n):
                out.append((cfg, nburn, runs, bound, (i, alt, pts[:i + 1])))
        return out

    def shard(ck, it):
        cfg, nburn, runs, bound, first = it
        W = World(*cfg)
        base = "draws:%s:%d:%s" % ("-".join(map(str, cfg)), nburn, "".join(map(str, runs)))

        def one(ch):
            key = None
            # the key needs the whole vector, which is known only afterwards: run under a provisional key
            vec = [c for c, _, _ in ch.prefix]
            key = "%s:%s" % (base, ".".join("%d=%d" % (i, c) for i, c in enumerate(vec) if c) or "default")
            if ck.only is not None and ck.only != key:
                observe(history, ck, W, ch, nburn, runs)  # replay: only to find the choice points
            else:
                ck.case(key, history, ck, W, ch, nburn, runs)
            ck.state((base, ch.vector()))
            # a run that failed half way has fewer choice points than its prefix
            while len(ch.choices) < len(ch.prefix):
                c, n, l = ch.prefix[len(ch.choices)]
                ch.points.append((n, l))
                ch.choices.append(c)

        if first is None:
            for _ in explore(one, bound=0):
                pass
            return
        i, alt, pts = first
        prefix = [(0, n, l) for n, l in pts[:i]] + [(alt, pts[i][0], pts[i][1])]
        expand(one, prefix, bound - 1)

    def expand(one, prefix, left):
        """Depth-first over all vectors that extend prefix by at most `left` deviations."""
        ch = Chooser(prefix)
        one(ch)
        if left <= 0 or ck.stop:
            return
        base = [(c, p[0], p[1]) for c, p in zip(ch.choices, ch.points)]
        for i in range(len(prefix), len(ch.points)):
            for a in range(1, ch.points[i][0]):
                expand(one, base[:i] + [(a, ch.points[i][0], ch.points[i][1])], left - 1)

    d = 2 if ck.quick else 3
    items = shards((2, "comp", "box", "df"), 1, (1, 1), d)
    items += shards((1, "scalarq", "gauss", "sed", 4), 0, (2,), d)
    items += shards((2, "naima", "box", "df"), 0, (1, 1), d if not ck.quick else 1)
    # B. one deviation over the product of structures, priors and data
    for st in list(STRUCT) + ["naima"]:
        for pr, da in ([("box", "df"), ("none", "sed"), ("gauss", "noul"), ("flat", "kev")] if not ck.quick
                       else [("box", "df"), ("none", "sed")]):
            items += shards((2, st, pr, da), 0, (1,), 1 if ck.quick else 2)
    for pr, da in itertools.product(PRIORS, DATA):
        items += shards((2, "pair", pr, da), 1, (1,), 1)
        items += shards((3, "array", pr, da, 6), 0, (1,), 0 if ck.quick else 1)
    ck.parallel(shard, items)

    # C. histories of runs: any way of cutting a run into pieces gives the same samples
    def cuts(total):
        if total == 0:
            yield ()
        for k in range(1, total + 1):
            for r in cuts(total - k):
                yield (k,) + r

    class Default:
        @staticmethod
        def choose(n, label=""):
            return 0

    def mixed(seed):
        state = [seed]

        class Ch:
            @staticmethod
            def choose(n, label=""):
                if label.startswith("normal"):
                    return 0
                state[0] = (state[0] * 1103515245 + 12345) & 0x7FFFFFFF
                return (state[0] >> 8) % n

        return Ch

    def hist(ck, it):
        cfg, nburn, total, seed = it
        key = "cuts:%s:%d:%d:%d" % ("-".join(map(str, cfg)), nburn, total, seed)

        def go():
            W = World(*cfg)
            ref = None
            for runs in cuts(total):
                got = history(ck, W, mixed(seed), nburn, runs)
                ck.state((it, runs))
                whole = np.concatenate([g[2] for g in got])
                if ref is None:
                    ref = whole
                elif not near(ref, whole):
                    raise Violation("the samples of runs %r differ from those of %r" % (runs, first))
                if ref is whole:
                    first = runs

        ck.case(key, go)

    items = [((2, st, pr, da), nb, tot, sd) for st, pr, da in
             (("comp", "box", "df"), ("array", "none", "sed"), ("naima", "gauss", "df"), ("mixed", "box", "kev"))
             for nb in (0, 1, 2) for tot in ((3, 4) if ck.quick else (4, 5, 6)) for sd in range(2 if ck.quick else 6)]
    ck.parallel(hist, items)

    # several samplers alive in one process, asked in any order about the same or other positions
    cfgs = [("comp", "box", "df"), ("array", "none", "df"), ("naima", "gauss", "df"), ("comp", "box", "sed"),
            ("mixed", "flat", "kev"), ("scalarq", "gauss", "noul"), ("sed", "none", "df")]
    PARS = [[2.2, 1.9], [1.3, 2.4], [7.0, 1.9]]

    def several(ck, it):
        word, alive = it

        def go():
            kept = {}
            for n, (c, k) in enumerate(word):
                if c not in kept or not alive:
                    kept.clear() if not alive else None
                    W = World(2, *cfgs[c])
                    with C.scripted(C.Script(lambda m, label="": 0)):
                        kept[c] = W, W.start(0)[0]
                W, s = kept[c]
                p = np.array(PARS[k])
                ask = (p, p * 1.01, p) if n % 2 else (p,)  # the last of one question may be the first of the next
                lp, bl = s.compute_log_prob(np.array(ask))
                ck.step()
                for j, q in enumerate(ask):
                    want = W.lnp(q)
                    if not (want == lp[j] or abs(want - lp[j]) <= 1e-9 * max(1.0, abs(want))):
                        raise Violation("evaluation %d of %s: log-probability %r instead of %r" % (n, word, lp[j], want))
                    for k2, o in enumerate(outputs(W.fresh(np.array(q), W.data))):
                        d = out_diff(bl[j][k2], o)
                        if d:
                            raise Violation("evaluation %d of %s: output %d: %s" % (n, word, k2, d))
            ck.state(it)

        ck.case("several:%s:%s" % (".".join("%d%d" % w for w in word), "alive" if alive else "anew"), go)

    ctx = list(itertools.product(range(len(cfgs)), range(len(PARS))))
    words = list(itertools.product(ctx, repeat=2))
    small = [(c, k) for c in range(4) for k in range(2)]
    words += list(itertools.product(small, repeat=3 if ck.quick else 4))
    ck.parallel(several, [(w, al) for w in words for al in (True, False)])

    # two runs in turn
    def inturn(ck, it):
        a, b, order, nb = it

        def go():
            ss = {}
            for n, who in enumerate(order):
                W = ss[who][0] if who in ss else World(2, *cfgs[a if who == "a" else b])
                with C.scripted(C.Script(mixed(n % 2)().choose)):
                    s, pos = ss[who][1:] if who in ss else W.start(nb)
                    s, pos = run_sampler(sampler=s, pos=pos, nrun=1 + n % 2)
                ss[who] = (W, s, pos)
                check_sampler(W, s, pos, 1 + n % 2, "run %d of %s" % (n, order))
                ck.step()
            ck.state(it)

        ck.case("inturn:%d:%d:%s:%d" % it, go)

    ck.parallel(inturn, [(a, b, o, nb) for a in range(len(cfgs)) for b in range(len(cfgs)) if a != b
                         for o in ("ab", "aab", "abab", "abba") for nb in (0, 1)])

    # D. recorded labels, data and run information for every way of starting a run
    def info(ck, it):
        lab, p0k, nb, nrun, nw, direct, guess = it
        key = "info:%s:%s:%d:%d:%d:%s:%s" % it

        def go():
            W = World(2, "scalarq", "box", "df", nw)
            labels = {"none": None, "full": ["norm", "index"], "short": ["norm"], "empty": [],
                      "tuple": ("norm", "index"), "shorttuple": ("log10(K)",)}[lab]
            want_l = list(labels or [])
            want_l = ["norm", "par1"][len(want_l):] and want_l + ["norm" if labels is None and i == 0 else "par%d" % i
                                                              for i in range(len(want_l), 2)] or want_l
            p0 = {"list": [2.2, 1.9], "array": np.array([2.2, 1.9]), "tuple": (2.2, 1.9), "ints": [2, 2],
                  "intarray": np.array([2, 2])}[p0k]
            kw = dict(data_table=W.table, p0=p0, model=W.model, prior=W.prior, nwalkers=nw, nburn=nb,
                      guess=guess, threads=1, labels=labels)
            ck.state(it)
            script = C.Script(Default.choose)
            with C.scripted(script):
                if direct:
                    s, pos = run_sampler(nrun=nrun, **kw)
                else:
                    s, pos = get_sampler(**kw)
                    s, pos = run_sampler(nrun=nrun, sampler=s, pos=pos)
            ck.step()
            check_sampler(W, s, pos, nrun, "run")
            if list(s.labels) != want_l:
                raise Violation("labels %r instead of %r" % (list(s.labels), want_l))
            if s.data_table is not W.table:
                raise Violation("the data table of the sampler is not the one given")
            for c in W.data.colnames:
                dd = same(np.asarray(getattr(s.data[c], "value", s.data[c])),
                          np.asarray(getattr(W.data[c], "value", W.data[c])))
                if dd or str(s.data[c].unit) != str(W.data[c].unit):
                    raise Violation("data column %s of the sampler differs from the data: %s" % (c, dd))
            if s.modelfn is not W.model:
                raise Violation("the model function of the sampler is not the one given")
            ri = s.run_info
            for k, w in (("n_walkers", nw), ("n_burn", nb), ("n_run", nrun), ("guess", guess)):
                if ri.get(k) != w:
                    raise Violation("run information %s is %r instead of %r" % (k, ri.get(k), w))
            if not guess and not near(np.array(ri["p0"]), np.array(p0, dtype=float)):
                raise Violation("recorded start %r instead of %r" % (ri["p0"], p0))
            if ri["p0"][1] != float(p0[1]):
                raise Violation("recorded start %r: the index was not to be changed" % (ri["p0"],))
            if len(script.normals) == nw * 2:
                ball = np.array(ri["p0"]) * (1 + 0.1 * np.array(script.normals).reshape(nw, 2))
                tr = iter(script.trace)
                x = C.stretch_chain(ball, W.lnp, tr, nb)[3]
                if not near(np.array(ri["p0_burn_median"]), np.median(x, axis=0)):
                    raise Violation("the recorded start is not where the walkers started")
                c = C.stretch_chain(x, W.lnp, tr, nrun)[0]
                if not near(s.get_chain(), c):
                    raise Violation("the stored chain is not the one these draws lead to")

        ck.case(key, go)

    items = list(itertools.product(("none", "full", "short", "empty", "tuple", "shorttuple"),
                                   ("list", "array", "tuple", "ints", "intarray"), (0, 1, 2), (1, 2), (4, 6),
                                   (False, True), (False, True)))
    if ck.quick:
        items = [x for x in items if not (x[2] == 2 and x[3] == 2)]
    ck.parallel(info, items)

    # E. a model without a value is an error, never a sample
    def bad(ck, it):
        kind, at, nb = it
        key = "bad:%s:%d:%d" % it

        def go():
            W = World(2, "scalarq", "none", "df")
            calls = [0]

            def model(p, data):
                f = flux_q(p, data)
                calls[0] += 1
                if calls[0] == at:
                    if kind == "nan":
                        f[1] = np.nan
                    elif kind == "raise":
                        raise ZeroDivisionError("model failed")
                return f, p[0] * u.erg

            ck.state(it)

            def go2():
                with C.scripted(C.Script(Default.choose)):
                    s, pos = get_sampler(data_table=W.table, p0=W.p0, model=model, nwalkers=4, nburn=nb,
                                         guess=False, threads=1)
                    return run_sampler(sampler=s, pos=pos, nrun=2)

            r = observe(go2)
            ck.step()
            if calls[0] >= at:
                if kind == "raise" and not (isinstance(r, Raised) and r.kind == "ZeroDivisionError"):
                    raise Violation("a failing model evaluation gave %r" % (r,))
                if kind == "nan" and not isinstance(r, Raised) and at > 1:
                    if not np.all(np.isfinite(r[0].get_log_prob())):
                        raise Violation("undefined log-probabilities stored")
                    W.check_samples(r[0], r[0].get_chain(), r[0].get_log_prob(), r[0].get_blobs(), "run")

        ck.case(key, go)

    ck.parallel(bad, [(k, at, nb) for k in ("nan", "raise") for at in range(1, 18) for nb in (0, 1)])
