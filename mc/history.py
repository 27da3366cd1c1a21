"""Histories of a function that is documented to depend on its arguments only.

The arguments are changed in place between calls (the caller's own arrays, tables, objects), or thrown
away and built anew (so that a later object may live at the address of an earlier one).  Every word of
up to `depth` states is replayed; each answer must be that of a first call with the same contents, and
the answers given earlier must not change."""
import copy
import gc
import itertools

from .common import Raised, observe, same
from .harness import Violation


def _cp(x):
    return copy.deepcopy(x)


def _diff(got, want, rtol):
    if isinstance(got, (tuple, list)) and isinstance(want, (tuple, list)):
        if len(got) != len(want):
            return "%d results instead of %d" % (len(got), len(want))
        for g, w in zip(got, want):
            d = _diff(g, w, rtol)
            if d:
                return d
        return None
    if isinstance(got, str) or isinstance(want, str):
        return None if got == want else "%r instead of %r" % (got, want)
    return same(got, want, rtol)


def words(n, depth):
    for d in range(2, depth + 1):
        for w in itertools.product(range(n), repeat=d):
            if all(a != b for a, b in zip(w, w[1:])):
                yield w


def replay(ck, make, setters, call, depth=3, rtol=1e-11, result=None, what=""):
    """make() -> mutable arguments; setters[i](args) puts them, in place, in state i; call(args) -> result;
    result(x) gives the comparable form of what call returned (numbers, quantities, strings, nested)."""
    result = result or (lambda x: x)
    keep, expected = [], []
    # each expected answer from arguments of its own that stay alive
    for s in setters:
        a = make()
        s(a)
        r = observe(call, a)
        keep.append((a, r))
        expected.append(r if isinstance(r, Raised) else _cp(result(r)))
        ck.step()
    for w in words(len(setters), depth):
        for mode in ("in place", "anew"):
            a, got = make(), []
            for i in w:
                if mode == "anew":
                    # the old arguments die first; the new ones may take over their addresses
                    a = None
                    if len(setters) <= 2:
                        gc.collect(0)
                    a = make()
                setters[i](a)
                r = observe(call, a)
                ck.step()
                got.append((i, r))
                d = _diff(r if isinstance(r, Raised) else result(r), expected[i], rtol)
                if d:
                    raise Violation("%s, contents %s in turn (%s), call %d: %s" % (what, list(w), mode, len(got), d))
            for k, (i, r) in enumerate(got):
                d = _diff(r if isinstance(r, Raised) else result(r), expected[i], rtol)
                if d:
                    raise Violation("%s, contents %s in turn (%s): the answer of call %d changed afterwards: %s"
                                    % (what, list(w), mode, k + 1, d))
            ck.state((what, mode, w))
    del keep
