"""Explorers, bookkeeping, evidence and replay artefacts.

Vocabulary of the evidence:
  states       distinct canonical states / inputs / environment-choice vectors visited
  transitions  operations of the real implementation executed during the exploration
  traces       complete histories (or inputs) on which implementation and reference agreed
               or disagreed, i.e. that were validated against the implementation
  outcomes     distinct observed outcomes (guards against vacuous exploration)
"""
import fnmatch
import hashlib
import itertools
import json
import multiprocessing as _mp
import os
import re
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    pass


class HarnessError(Exception):
    pass


def digest(obj):
    return hashlib.blake2b(repr(obj).encode(), digest_size=8).hexdigest()


def load_known(pid):
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)$", line)
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


class Check:
    MAX_VIOLATIONS = int(os.environ.get('MC_MAXV', 12))

    def __init__(self, pid, tier, seed, only=None):
        self.pid, self.tier, self.seed, self.only = pid, tier, seed, only
        self.quick = tier == "quick"
        self.t0 = time.time()
        self.states = set()
        self.outcomes = set()
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.violations = []
        self.known_hit = {}
        self.known = load_known(pid)
        self.exhaustive = True
        self.bounds = {}
        self.assumptions = []
        self.groups = {}
        self._in_child = False

    # -- bookkeeping ------------------------------------------------------
    def state(self, key):
        self.states.add(digest(key))

    def step(self, n=1):
        self.transitions += n

    def outcome(self, obj):
        if len(self.outcomes) < 200000:
            self.outcomes.add(digest(obj))

    def sample(self, obj):
        if len(self.samples) < 6:
            self.samples.append(obj)

    @property
    def stop(self):
        return len(self.violations) >= self.MAX_VIOLATIONS

    def require(self, cond, msg, *args):
        if not cond:
            raise Violation(msg % args if args else msg)

    # -- running one case ---------------------------------------------------
    def case(self, key, fn, *args, **kw):
        """Run one case. `key` is a short string identifying it (also used for replay)."""
        if self.only is not None and key != self.only:
            return None
        if self.stop:
            return None
        self.traces += 1
        g = key.split(":", 1)[0]
        self.groups[g] = self.groups.get(g, 0) + 1
        try:
            r = fn(*args, **kw)
        except Violation as e:
            self._fail(key, str(e), None)
            return None
        except HarnessError:
            raise
        except Exception as e:  # noqa
            # no case raises on a tree where the property holds; an exception out of naima is
            # a crash, one out of the comparison means the result had no usable form
            where = "naima" if in_naima(e) else "comparison of the result"
            self._fail(key, "unexpected %s in %s: %s" % (type(e).__name__, where, e),
                       traceback.format_exc())
            return None
        if self.only is not None:
            print("REPLAYED (no violation): %s" % key)
        return r

    def _fail(self, key, what, tb):
        what = " ".join(what.split())[:600]
        for pat, desc in self.known:
            if fnmatch.fnmatchcase(key, pat):
                self.known_hit.setdefault(pat, desc)
                return
        self.violations.append(dict(key=key, what=what, traceback=tb))

    # -- parallel map -------------------------------------------------------
    def parallel(self, fn, items, procs=None, chunks=None):
        """fn(check, item) for every item, in forked workers; results are merged."""
        items = list(items)
        procs = procs or min(8, os.cpu_count() or 1)
        if procs <= 1 or len(items) <= 1 or self._in_child:
            for it in items:
                fn(self, it)
            return
        nch = chunks or min(len(items), procs * 6)
        parts = [items[i::nch] for i in range(nch)]
        global _PAR
        _PAR = (self, fn, parts)
        ctx = _mp.get_context("fork")
        _orig_fork_guard()
        with ctx.Pool(procs) as pool:
            for res in pool.imap_unordered(_par_worker, range(nch)):
                if "error" in res:
                    raise HarnessError(res["error"])
                self.states |= res["states"]
                self.outcomes |= res["outcomes"]
                self.transitions += res["transitions"]
                self.traces += res["traces"]
                for s in res["samples"]:
                    self.sample(s)
                for v in res["violations"]:
                    if not self.stop:
                        self.violations.append(v)
                self.known_hit.update(res["known_hit"])
                for g, n in res["groups"].items():
                    self.groups[g] = self.groups.get(g, 0) + n
                if not res["exhaustive"]:
                    self.exhaustive = False
                if self.stop:
                    pool.terminate()
                    break

    # -- finish -----------------------------------------------------------
    def finish(self):
        wall = time.time() - self.t0
        vios = sorted(self.violations, key=lambda v: (len(v["key"]), v["key"]))
        cov = dict(states=len(self.states), transitions=self.transitions,
                   traces_validated_against_impl=self.traces,
                   samples=self.samples or ["none"],
                   distinct_outcomes=len(self.outcomes),
                   cases_per_group=self.groups,
                   exhaustive=bool(self.exhaustive and not self.stop and self.only is None),
                   bounds=self.bounds)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level="model_checking",
                  coverage=cov, assumptions=self.assumptions, wall_s=round(wall, 2),
                  violations=len(vios))
        if self.only is None:
            os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
            with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
                json.dump(ev, f, indent=1, default=str)
        for pat, desc in sorted(self.known_hit.items()):
            print("KNOWN-FINDING: property=%s %s [%s]" % (self.pid, desc, pat))
        print("%s %s: %d states, %d transitions, %d traces, %d outcomes, %.1f s%s" % (
            self.pid, self.tier, len(self.states), self.transitions, self.traces,
            len(self.outcomes), wall, "" if cov["exhaustive"] else " (not exhaustive)"))
        if self.only is None and not vios:
            if self.traces == 0 or len(self.states) < 2:
                raise HarnessError("vacuous exploration")
        if not vios:
            return 0
        rdir = os.path.join(VERIF, "replays", self.pid)
        os.makedirs(rdir, exist_ok=True)
        for i, v in enumerate(vios):
            path = os.path.join(rdir, digest(v["key"]) + ".json")
            with open(path, "w") as f:
                json.dump(dict(property=self.pid, tier=self.tier, key=v["key"], what=v["what"],
                               traceback=v["traceback"],
                               replay="bin/check %s --replay %s" % (self.pid, path)), f, indent=1)
            if i < 5:
                print("  case %s: %s" % (v["key"], v["what"][:400]))
            if i == 0:
                first = path
        print("VIOLATION property=%s replay=%s" % (self.pid, first))
        return 1


def in_naima(e):
    """Does the exception come out of the code under test (rather than the harness)?"""
    from . import env

    src = os.path.join(os.path.realpath(env.SRC), "naima") + os.sep
    seen = set()
    while e is not None and id(e) not in seen:
        seen.add(id(e))
        tb = e.__traceback__
        while tb is not None:
            fn = os.path.realpath(tb.tb_frame.f_code.co_filename)
            if fn.startswith(src):
                return True
            tb = tb.tb_next
        e = e.__cause__ or e.__context__
    return False


_PAR = None


def _orig_fork_guard():
    sys.stdout.flush()
    sys.stderr.flush()


def _par_worker(i):
    parent, fn, parts = _PAR
    c = Check(parent.pid, parent.tier, parent.seed, parent.only)
    c._in_child = True
    try:
        for it in parts[i]:
            if c.stop:
                break
            fn(c, it)
    except Exception:  # noqa
        return dict(error=traceback.format_exc())
    return dict(states=c.states, outcomes=c.outcomes, transitions=c.transitions, traces=c.traces,
                samples=c.samples, violations=c.violations, known_hit=c.known_hit,
                groups=c.groups, exhaustive=c.exhaustive)


# ---------------------------------------------------------------------------
# Stateless exploration of environment choices, deviation bounded
# ---------------------------------------------------------------------------
class Chooser:
    """Replays a prefix of choices, then takes alternative 0 (the default) everywhere."""

    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.points = []  # (n alternatives, label)
        self.choices = []

    def choose(self, n, label=""):
        i = len(self.choices)
        c = 0
        if i < len(self.prefix):
            want, wn, wl = self.prefix[i]
            if wn != n or wl != label:
                raise HarnessError("replay diverged at point %d: %r/%r, expected %r/%r"
                                   % (i, n, label, wn, wl))
            c = want
        if not 0 <= c < n:
            raise HarnessError("choice out of range")
        self.points.append((n, label))
        self.choices.append(c)
        return c

    def vector(self):
        return tuple(self.choices)


def explore(run, bound=None, max_runs=None, on_cap=None):
    """Depth first enumeration of every choice vector with at most `bound` non-default
    choices (all of them if bound is None).  Yields (chooser, result of run)."""
    stack = [[]]
    n = 0
    while stack:
        prefix = stack.pop()
        ch = Chooser(prefix)
        res = run(ch)
        if len(ch.choices) < len(prefix):
            raise HarnessError("replay consumed only part of the prefix")
        n += 1
        yield ch, res
        if max_runs is not None and n >= max_runs:
            if stack and on_cap:
                on_cap()
            return
        base = [(c, p[0], p[1]) for c, p in zip(ch.choices, ch.points)]
        dev = sum(1 for c in ch.choices[: len(prefix)] if c)
        if bound is not None and dev >= bound:
            continue
        for i in range(len(ch.points) - 1, len(prefix) - 1, -1):
            for alt in range(ch.points[i][0] - 1, 0, -1):
                stack.append(base[:i] + [(alt, ch.points[i][0], ch.points[i][1])])


def histories(alphabet, depth, start=1):
    """All words over `alphabet` of length start..depth, shortest first."""
    for d in range(start, depth + 1):
        for w in itertools.product(alphabet, repeat=d):
            yield w


def _hang(ck, main_pid):
    """A quick check takes about a minute; the code under test does not terminate."""
    if os.getpid() != main_pid:
        os._exit(4)
    ck.exhaustive = False
    ck._fail("hang", "no answer within 820 s", None)
    for p in _mp.active_children():
        p.kill()
    rc = ck.finish()
    sys.stdout.flush()
    os._exit(rc)


def main(argv):
    import argparse
    import importlib

    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--replay")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args(argv)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    only = None
    if a.replay:
        r = json.load(open(a.replay))
        only, tier = r["key"], r["tier"]
    ck = Check(a.pid, tier, seed, only)
    main_pid = os.getpid()

    if tier == "quick" and only is None:
        signal.signal(signal.SIGALRM, lambda *_: _hang(ck, main_pid))
        signal.alarm(820)
    try:
        try:
            from . import env  # noqa
        except Exception as e:  # the code under test cannot even be imported
            if not in_naima_path(traceback.format_exc()):
                raise
            ck.traces = 1
            ck._fail("import", "naima cannot be imported: %s" % e, traceback.format_exc())
            return ck.finish()
        mod = importlib.import_module("checks." + a.pid.lower())
        mod.run(ck)
        return ck.finish()
    except Exception as e:  # noqa
        traceback.print_exc()
        # nothing outside the cases raises on a tree where the property holds
        if in_naima(e) or in_naima_path(str(e)) or isinstance(e, Violation):
            ck.exhaustive = False
            ck.traces += 1
            ck._fail("setup", "unexpected %s in naima: %s" % (type(e).__name__, str(e)[-300:]),
                     traceback.format_exc())
        # violations found before the harness error are still reported
        if ck.violations:
            return ck.finish()
        return 3


def in_naima_path(txt):
    return "/src/naima/" in txt
