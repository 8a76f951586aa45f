"""C31: helpers behind the models: polar coordinates, clipped roots, validated attributes."""
import math

import numpy as np

from .. import core

ID = "C31"
RULE = ("random numbers of any magnitude, sign and type as scalars, arrays and broadcastable pairs through cart2pol and psqrt, judged "
        "element by element with the math module; random histories of classes declaring validated attributes (types, inherited, "
        "shared by instances) against a model of their state and of the change notifications; non-trivial always")
ASSUMPTIONS = ["relative accuracy 1e-12 in double precision, that of the type otherwise", "NaN is not judged",
               "assigning an equal value of another type (1 for True) may or may not replace the stored one"]
MIN_EVENTS = {"polar": 3000, "origin": 40, "axis": 200, "broadcast": 100, "root": 3000, "clipped": 1000, "attr_set": 1000, "attr_same": 300,
              "attr_type": 300, "attr_negative": 300, "attr_unset": 100, "plain": 1000, "notified": 1000}
CHUNK = 10


def cases(rng, tier):
    for rep in range(120 if tier == "quick" else 3000):
        yield dict(what="polar", seed=int(rng.integers(2**31)))
        yield dict(what="root", seed=int(rng.integers(2**31)))
        yield dict(what="attribute", seed=int(rng.integers(2**31)))
        yield dict(what="plain", seed=int(rng.integers(2**31)))


def numbers(rng, shape):
    v = rng.normal(size=shape) * 10.0 ** rng.uniform(*[(-3, 3), (-150, 150), (-300, 300)][int(rng.integers(3))], size=shape)
    flat = np.array(v).reshape(-1)
    for i in range(flat.size):
        if rng.random() < 0.2:
            flat[i] = [0.0, -0.0, 1.0, -1.0, 5e-324, -5e-324, 1e300, -1e300][int(rng.integers(8))]
    return flat.reshape(shape)


def polar(rng, rec):
    from pyotf.utils import cart2pol
    for _ in range(12):
        kind = int(rng.integers(6))
        shape = [(), (7,), (3, 4), (2, 3, 2), (0,), (1,)][int(rng.integers(6))]
        y, x = numbers(rng, shape), numbers(rng, shape)
        if kind == 1:
            y, x = numbers(rng, (4, 1)), numbers(rng, (1, 5))
            rec.ev("broadcast")
        elif kind == 2:
            y, x = float(numbers(rng, ())), numbers(rng, (6,))
            rec.ev("broadcast")
        elif kind == 3:
            y, x = (rng.integers(-50, 50, shape).astype(str(rng.choice(["int64", "int32", "int16"]))) for _ in range(2))
        elif kind == 4:
            y, x = numbers(rng, (40,)), numbers(rng, (40,))
            y[::3], x[::2] = 0, 0
        elif kind == 5:
            y, x = float(numbers(rng, ())), float(numbers(rng, ()))
        keep = core.digest([np.asarray(y), np.asarray(x)])
        r, t = cart2pol(y, x)
        rec.ok(core.digest([np.asarray(y), np.asarray(x)]) == keep, "cart2pol changed its arguments")
        by, bx = np.broadcast_arrays(np.asarray(y, dtype=float), np.asarray(x, dtype=float))
        rec.shape(np.asarray(r), by.shape, "radius")
        rec.shape(np.asarray(t), by.shape, "angle")
        tol = 1e-12
        if np.asarray(r).dtype == np.float32:
            tol = 1e-6
        for a, b, gr, gt in zip(by.ravel(), bx.ravel(), np.ravel(r), np.ravel(t)):
            wr, wt = math.hypot(a, b), math.atan2(a, b)
            rec.ok(abs(gr - wr) <= tol * wr + 1e-323, "radius is not the length of the vector", y=a, x=b, got=gr, want=wr)
            if (np.asarray(y).dtype.kind == "f" or a or b) and np.isfinite(wr):
                # (integers have no negative zero)
                rec.ok(abs(gt - wt) <= tol * max(abs(wt), 1e-300) + 1e-323, "angle is not that of the vector", y=a, x=b, got=gt, want=wt)
            rec.ev("polar")
            rec.ev("origin", int(a == 0 == b))
            rec.ev("axis", int((a == 0) != (b == 0)))


def root(rng, rec):
    from pyotf.utils import psqrt
    for _ in range(12):
        shape = [(), (9,), (3, 4), (2, 3, 2), (0,), (1,)][int(rng.integers(6))]
        kind = int(rng.integers(5))
        if kind == 0:
            v = numbers(rng, shape)
        elif kind == 1:
            v = rng.integers(-1000, 1000, shape).astype(str(rng.choice(["int64", "int32", "int16"])))
        elif kind == 2:
            v = rng.integers(0, 60000, shape).astype("uint16")
        elif kind == 3:
            v = (numbers(rng, shape) % 1e30).astype(np.float32)
        else:
            v = [float(numbers(rng, ())), int(rng.integers(-5, 50))][int(rng.integers(2))]
        keep = core.digest([np.asarray(v)])
        got = psqrt(v)
        rec.ok(core.digest([np.asarray(v)]) == keep, "psqrt changed its argument")
        rec.shape(np.asarray(got), np.shape(v), "root")
        eps = 4 * float(np.finfo(np.asarray(got).dtype).eps)
        for a, g in zip(np.ravel(v), np.ravel(got)):
            want = math.sqrt(max(0.0, float(a)))
            rec.ok(abs(float(g) - want) <= eps * want, "psqrt is not the root, or zero for negative values", value=a, got=g, want=want)
            rec.ev("root")
            rec.ev("clipped", int(a < 0))


def attribute(rng, rec):
    from pyotf.utils import NumericProperty
    kinds = {"count": (int, None), "length": ((float, int), (float, int)), "flag": (bool, bool), "fraction": (float, float), "step": (int, int)}

    class Base:
        def __init__(self):
            self.calls = 0

        def _attribute_changed(self):
            self.calls += 1

    body = {}
    for n, (_, arg) in kinds.items():
        kw = dict(attr="_" + n, doc=f"The {n}")
        if arg is not None:
            kw["vartype"] = arg
        body[n] = NumericProperty(**kw)
    cls = type("Declared", (Base,), body)
    if rng.random() < 0.5:
        cls = type("Inherited", (cls,), {})
    for n in kinds:
        rec.ok(getattr(cls, n).__doc__ == f"The {n}", "documentation of a validated attribute", name=n)
    objs = [cls() for _ in range(2)]
    state = [dict(), dict()]
    values = [0, 1, 2, 7, 10**12, True, False, 0.0, 0.5, 2.0, 1e-300, 3.25, -1, -7, -0.5, -1e-9, "1", None, 1j, [1], (2,), np.float64(1.5),
              np.float64(-2.5), np.int64(3), "", {}]
    for _ in range(60):
        i = int(rng.integers(2))
        o, s = objs[i], state[i]
        n = str(rng.choice(list(kinds)))
        v = values[int(rng.integers(len(values)))]
        if n in s and rng.random() < 0.2:
            v = s[n]
        before = [q.calls for q in objs]
        good = isinstance(v, kinds[n][0])
        err = None
        try:
            setattr(o, n, v)
        except Exception as e:
            err = e
        if not good:
            rec.ok(isinstance(err, TypeError), "value of another type was not refused with a TypeError", name=n, value=repr(v), err=repr(err))
            rec.ev("attr_type")
        elif v < 0:
            rec.ok(isinstance(err, ValueError), "negative value was not refused with a ValueError", name=n, value=repr(v), err=repr(err))
            rec.ev("attr_negative")
        else:
            rec.ok(err is None, "valid value was refused", name=n, value=repr(v), err=repr(err))
            same = n in s and s[n] == v
            if not same:
                s[n] = v
                before[i] += 1
                rec.ev("attr_set")
                rec.ev("notified")
            else:
                rec.ev("attr_same")
        rec.ok([q.calls for q in objs] == before, "changes were not announced once each (and nothing else)", name=n, value=repr(v),
               calls=[q.calls for q in objs], want=before)
        for q, t in zip(objs, state):
            for k in kinds:
                if k in t:
                    got = getattr(q, k)
                    rec.ok(got == t[k], "stored value", name=k, got=repr(got), want=repr(t[k]))
                else:
                    rec.raises(lambda: getattr(q, k), f"reading {k} before it was set", AttributeError)
                    rec.ev("attr_unset")


def plain(rng, rec):
    """Given functions of its own, a validated attribute is an ordinary property."""
    from pyotf.utils import NumericProperty
    log = []

    def fget(o):
        log.append("get")
        return o.raw * 2

    def fset(o, v):
        log.append("set")
        o.raw = v / 2

    def fdel(o):
        log.append("del")
        o.raw = 0.0

    parts = [fget, fset, fdel, "A doubled number"]
    given = [int(v) for v in rng.permutation(4)[:int(rng.integers(1, 5))]]
    kw = {n: parts[i] for i, n in enumerate(("fget", "fset", "fdel", "doc")) if i in given}
    if rng.random() < 0.4:
        top = max(given)
        prop = NumericProperty(*[parts[i] if i in given else None for i in range(top + 1)])
    else:
        prop = NumericProperty(**kw)
    cls, twin = type("Plain", (), dict(p=prop, raw=1.5)), type("Plain", (), dict(p=property(**kw), raw=1.5))
    rec.ok(isinstance(prop, property) and prop.__doc__ == property(**kw).__doc__, "documentation of a property with functions of its own", got=prop.__doc__)
    a, b = cls(), twin()
    for _ in range(12):
        op, v = int(rng.integers(3)), float(rng.choice([-4.0, 0.0, 3.5]))
        res = []
        for o in (a, b):
            log.clear()
            try:
                r = ("ok", [lambda: o.p, lambda: setattr(o, "p", v), lambda: delattr(o, "p")][op]())
            except Exception as e:
                r = (type(e).__name__, None)
            res.append((r, o.raw, list(log)))
        rec.ok(res[0] == res[1], "a property given functions of its own does not use them", op=op, given=sorted(kw), got=res[0], want=res[1])
        rec.ev("plain")


def check(case, rec):
    rng = np.random.default_rng(case["seed"])
    rec.nontrivial = True
    rec.tag(what=case["what"])
    dict(polar=polar, root=root, attribute=attribute, plain=plain)[case["what"]](rng, rec)
