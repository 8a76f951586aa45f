"""Core of the harness: per-case recorder, violations, verdict discipline.

A *case* is a JSON-able dict that fully determines one workload against the
real code in /repo.  A property module supplies

  ID, RULE, ASSUMPTIONS          texts for the evidence file
  cases(rng, tier)               generator of cases (rng: numpy Generator)
  check(case, rec)               drives the code, feeds what it observed to
                                 `rec`, raises Violation when the oracle says so
  MIN_EVENTS                     {event name: least number of observations},
                                 fewer means inconclusive, never "held"

Verdicts are three-valued: violated (exit 1), held on what was observed
(exit 0), inconclusive (exit 2).
"""
import collections
import hashlib
import json

import numpy as np


class Violation(Exception):
    """The oracle refuted the property on this case."""

    def __init__(self, msg, **detail):
        super().__init__(msg)
        self.msg = msg
        self.detail = detail


class Inconclusive(Exception):
    """The case could not be decided (never folded into held or violated)."""


class KnownFinding(Exception):
    """A listed known finding showed up (mechanism key, text)."""

    def __init__(self, key, text):
        super().__init__(text)
        self.key = key
        self.text = text


def jsonable(x):
    """Convert numpy things for JSON."""
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        if x.size > 64:
            return f"array(shape={x.shape}, dtype={x.dtype})"
        return jsonable(x.tolist())
    if isinstance(x, np.generic):
        return jsonable(x.item())
    if isinstance(x, complex):
        return repr(x)
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


def case_hash(case):
    return hashlib.sha1(json.dumps(jsonable(case), sort_keys=True).encode()).hexdigest()[:16]


def digest(x):
    """Content digest of nested results, for before/after comparisons."""
    h = hashlib.sha1()

    def feed(v):
        if isinstance(v, np.ndarray):
            h.update(f"{v.dtype}{v.shape}".encode())
            h.update(np.ascontiguousarray(v).tobytes())
        elif isinstance(v, dict):
            for k in sorted(v, key=repr):
                h.update(repr(k).encode())
                feed(v[k])
        elif isinstance(v, (list, tuple)):
            h.update(f"{type(v).__name__}{len(v)}".encode())
            for e in v:
                feed(e)
        else:
            h.update(repr(v).encode())

    feed(x)
    return h.hexdigest()


class Rec:
    """Collects what the monitors observed during one case."""

    def __init__(self):
        self.events = collections.Counter()
        self.tags = collections.Counter()
        self.oracle = 0  # oracle evaluations
        self.nontrivial = False
        self.findings = []  # (key, text)
        self.maxdev = {}  # largest relative deviation seen per oracle

    def ev(self, name, n=1):
        self.events[name] += n

    def tag(self, **kw):
        for k, v in kw.items():
            self.tags[f"{k}={v}"] += 1

    def ok(self, cond, msg, **detail):
        self.oracle += 1
        if not cond:
            raise Violation(msg, **jsonable(detail))

    def finding(self, key, text):
        self.findings.append((key, text))

    def shape(self, a, shape, msg):
        self.ok(tuple(np.shape(a)) == tuple(shape), msg + ": wrong shape",
                got=np.shape(a), want=shape)

    def close(self, got, want, msg, rtol=1e-9, atol=0.0, scale=None, **detail):
        """Compare arrays with a tolerance relative to the largest wanted value."""
        got, want = np.asarray(got), np.asarray(want)
        self.shape(got, want.shape, msg)
        self.oracle += 1
        if want.size == 0:
            return
        s = float(np.max(np.abs(want))) if scale is None else float(scale)
        tol = rtol * s + atol
        with np.errstate(all="ignore"):
            d = np.abs(got - want)
        same_nan = np.isnan(got) & np.isnan(want) if got.dtype.kind in "fc" and want.dtype.kind in "fc" else None
        if same_nan is not None and same_nan.any():
            d = np.where(same_nan, 0, d)
        if not np.all(np.isfinite(d)):
            i = np.unravel_index(np.argmax(~np.isfinite(d)), d.shape)
            raise Violation(msg + ": not finite", **jsonable(dict(at=i, got=got[i], want=want[i], **detail)))
        m = float(d.max())
        if s > 0:
            self.maxdev[msg[:60]] = max(self.maxdev.get(msg[:60], 0.0), m / s)
            self.nontrivial = True
        if m > tol:
            i = np.unravel_index(d.argmax(), d.shape)
            raise Violation(msg, **jsonable(dict(at=i, got=got[i], want=want[i], maxdiff=m, tol=tol, **detail)))

    def raises(self, fn, msg, exc=Exception, **info):
        """The call must be rejected."""
        self.oracle += 1
        try:
            r = fn()
        except exc as e:
            return e
        except Exception as e:
            raise Violation(msg + f": raised {type(e).__name__} instead", err=repr(e), **info)
        raise Violation(msg + ": was accepted", result=repr(r)[:200], **info)
