"""C12: the Noll mapping is the standard bijection."""
import itertools

import numpy as np

from .. import ref
from .c10 import NAMES

ID = "C12"
RULE = ("all 120 indices and all degree pairs up to degree 16, as scalars, 0-d, n-d arrays, lists and every signed integer "
        "type, plus invalid values; non-trivial when a pair was compared with the definition")
ASSUMPTIONS = []
MIN_EVENTS = {"index": 902, "pair": 1000, "rejected": 300, "name": 8}
TYPES = (np.int8, np.int16, np.int32, np.int64)


def cases(rng, tier):
    for t in range(4):
        yield dict(what="table", dtype=t, seed=int(rng.integers(2**31)))
    for rep in range(200 if tier == "quick" else 4000):
        yield dict(what="arrays", dtype=int(rng.integers(4)), seed=int(rng.integers(2**31)))
    for n in range(17):
        yield dict(what="degree", n=n)
    yield dict(what="names")
    for rep in range(4 if tier == "quick" else 40):
        yield dict(what="invalid", seed=int(rng.integers(2**31)))


NM = {j: ref.noll_to_nm(j) for j in range(1, 137)}
INV = {v: k for k, v in NM.items()}


def scalar(x):
    return int(np.asarray(x).reshape(()))


def check(case, rec):
    import pyotf.zernike as Z
    from pyotf.zernike import degrees2noll, noll2degrees
    what = case["what"]
    rng = np.random.default_rng(case.get("seed", 0))
    rec.nontrivial = True
    if what == "table":
        dt = TYPES[case["dtype"]]
        seen = set()
        for j in range(1, 121):
            for arg in (dt(j), j, np.array(j, dt)):
                n, m = noll2degrees(arg)
                rec.ok((scalar(n), scalar(m)) == NM[j], "noll2degrees differs from Noll's ordering", noll=j, got=(n, m), want=NM[j])
                rec.ev("index")
            seen.add(NM[j])
            nn, mm = NM[j]
            for a, b in ((dt(nn), dt(mm)), (nn, mm), (np.array(nn, dt), mm)):
                rec.ok(scalar(degrees2noll(a, b)) == j, "degrees2noll is not the inverse", n=nn, m=mm)
                rec.ev("pair")
        rec.ok(len(seen) == 120, "not a bijection")
        js = np.arange(1, 121, dtype=dt)
        n, m = noll2degrees(js)
        rec.ok([(int(a), int(b)) for a, b in zip(n, m)] == [NM[j] for j in range(1, 121)], "whole table at once")
        rec.ok((degrees2noll(n, m) == js).all(), "round trip of the whole table")
        for t2 in TYPES:
            a = np.array([NM[j][0] for j in range(1, 121)], dt)
            b = np.array([NM[j][1] for j in range(1, 121)], t2)
            rec.ok((degrees2noll(a, b) == np.arange(1, 121)).all(), "degrees2noll of the whole table", types=(dt.__name__, t2.__name__))
    elif what == "arrays":
        dt = TYPES[case["dtype"]]
        shape = tuple(int(s) for s in rng.integers(1, 5, int(rng.integers(0, 4))))
        if rng.random() < 0.15:
            shape = [(0,), (3000,), (40, 50), (130, 1, 3)][int(rng.integers(4))]
        js = rng.integers(1, 121, shape).astype(dt)
        keep = np.array(js)
        arg = js.tolist() if js.size and rng.random() < 0.3 else js
        n, m = noll2degrees(arg)
        rec.ok(np.shape(n) == shape and np.shape(m) == shape, "shape of the degrees", got=np.shape(n), want=shape)
        w = [NM[int(j)] for j in np.ravel(js)]
        rec.ok([(int(a), int(b)) for a, b in zip(np.ravel(n), np.ravel(m))] == w, "noll2degrees is not elementwise")
        # degrees in other types and memory layouts
        d2 = TYPES[int(rng.integers(4))]
        lay = int(rng.integers(4))
        a, b = np.asarray(n).astype(dt), np.asarray(m).astype(d2)
        if lay == 1 and a.ndim:
            a = np.asfortranarray(a)
        elif lay == 2 and b.ndim:
            a, b = np.repeat(a, 2, -1)[..., ::2], b[..., ::-1].copy()[..., ::-1]
        elif lay == 3:
            a, b = a.tolist(), (b if a.size else b.tolist())
        if np.size(a):
            q = degrees2noll(a, b)
            rec.ok(np.shape(q) == shape and (np.asarray(q) == keep).all(), "degrees2noll of arrays", types=(dt.__name__, d2.__name__), layout=lay)
        if js.ndim > 1:
            f = np.asfortranarray(keep)
            rec.ok((np.asarray(noll2degrees(f)[0]) == np.asarray(n)).all(), "memory order changes the degrees")
            t = degrees2noll(np.asfortranarray(n), np.asfortranarray(m))
            rec.ok((np.asarray(t) == keep).all(), "memory order changes the indices")
        back = degrees2noll(n, m)
        rec.ok(np.shape(back) == shape and (np.asarray(back) == keep).all(), "round trip of an array")
        rec.ok((keep == js).all(), "input modified")
        rec.ok(np.issubdtype(np.asarray(n).dtype, np.integer) and np.issubdtype(np.asarray(back).dtype, np.integer), "degrees are not integers")
        rec.ev("index", js.size)
        rec.ev("pair", js.size)
    elif what == "degree":
        n = case["n"]
        for m in range(-n - 4, n + 5):
            for a, b in ((n, m), (np.array([n, n]), np.array([m, m])), (np.int8(n), np.int16(m))):
                if (n - m) % 2 or abs(m) > n:
                    rec.raises(lambda: degrees2noll(a, b), f"degrees ({n},{m})", ValueError)
                    rec.ev("rejected")
                elif n <= 14:
                    rec.ok((np.asarray(degrees2noll(a, b)) == INV[n, m]).all(), "degrees2noll differs from Noll's ordering", n=n, m=m)
                    rec.ev("pair")
                else:
                    # beyond the table: rejected, or right if the table were longer
                    try:
                        got = degrees2noll(a, b)
                    except (ValueError, IndexError):
                        rec.ev("rejected")
                    else:
                        rec.ok((np.asarray(got) == INV.get((n, m))).all(), "degrees beyond the table map to a wrong mode", n=n, m=m, got=got)
        for m in range(-n, n + 1):
            # no degree is negative, whatever the other one
            if n:
                for a, b in ((-n, m), (np.array([2, -n]), np.array([0, m]))):
                    rec.raises(lambda: degrees2noll(a, b), f"degrees ({-n},{m})", ValueError)
                rec.ev("rejected", 2)
        if n:
            # one bad pair among good ones
            good = [(a, b) for a, b in INV if a <= 14]
            a = np.array([g[0] for g in good[:5]] + [n]), np.array([g[1] for g in good[:5]] + [n - 1])
            rec.raises(lambda: degrees2noll(*a), "opposite parity among valid pairs", ValueError)
            a = np.array([g[0] for g in good[:5]] + [n]), np.array([g[1] for g in good[:5]] + [-n - 2])
            rec.raises(lambda: degrees2noll(*a), "|m| > n among valid pairs", ValueError)
            rec.ev("rejected", 2)
    elif what == "names":
        rec.ok(dict(Z.noll2name) == NAMES, "names of the modes", got=Z.noll2name)
        rec.ok(dict(Z.name2noll) == {v: k for k, v in NAMES.items()}, "indices of the names", got=Z.name2noll)
        rec.ev("name", 15)
    else:
        bad = [0, -1, -5, 2.5, 1.0, 3.0 + 0j, "4", [1, 0], [[1, 2], [3, -4]], [1.0, 2.0], np.array([1, 2], np.float32), np.int8(-3)]
        for b in bad:
            rec.raises(lambda: noll2degrees(b), f"Noll index {b!r}", ValueError)
            rec.ev("rejected")
        for a, b in ((1.0, 1), (1, 1.0), (2.5, 0), ("2", 0), (2, "0"), ([2.0], [0]), (np.float64(2), np.int64(0))):
            rec.raises(lambda: degrees2noll(a, b), f"degrees {a!r}, {b!r}", ValueError)
            rec.ev("rejected")
        for j in [121, 122, 136, 500, 10**6] + [int(x) for x in rng.integers(121, 5000, 10)]:
            for arg in (j, np.array([1, j])):
                try:
                    n, m = noll2degrees(arg)
                except (ValueError, IndexError):
                    rec.ev("rejected")
                else:
                    rec.ok((int(np.ravel(n)[-1]), int(np.ravel(m)[-1])) == ref.noll_to_nm(j), "an index beyond the table maps to a wrong mode", noll=j)
