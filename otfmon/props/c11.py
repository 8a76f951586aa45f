"""C11: Zernike values equal the standard polynomials, orthonormal on the disk."""
import numpy as np

from .. import ref

ID = "C11"
RULE = ("random (n, m) up to degree 100 and Noll sequences at random points (disk, rim, outside, centre), all call forms "
        "and output shapes, both normalisations; exact rational evaluation at sampled points; Gram matrix of all 120 modes "
        "by exact quadrature; non-trivial when a value is not zero")
ASSUMPTIONS = ["values are judged to 1e-9 of the mode's maximum", "singleton dimensions of the result are squeezed, as documented by the tests"]
MIN_EVENTS = {"mode": 1500, "exact_points": 300, "gram_entries": 14400, "rim": 100, "outside": 1000, "rejected": 548}
CHUNK = 4


def cases(rng, tier):
    k = 1 if tier == "quick" else 20
    for rep in range(600 * k):
        yield dict(what="values", top=int(rng.choice([4, 8, 14, 14, 30, 60, 100])), seed=int(rng.integers(2**31)))
    for norm in (True, False):
        yield dict(what="gram", norm=norm, seed=0)
    for rep in range(100 * k):
        yield dict(what="forms", seed=int(rng.integers(2**31)))
    for n0 in range(0, 15):
        yield dict(what="degree", n=n0, seed=int(rng.integers(2**31)))


def points(rng, shape):
    r = np.sqrt(rng.uniform(0, 1, shape))
    th = rng.uniform(-4, 7, shape)
    flat = r.reshape(-1)
    if flat.size > 6:
        idx = rng.permutation(flat.size)[:6]
        flat[idx] = [0.0, 1.0, np.nextafter(1, 2), 1.5, np.nextafter(1, 0), 20.0]
    return flat.reshape(shape), th


def one(rec, got, n, m, r, th, norm, what):
    want = ref.zernike_nm(n, m, r, th, norm)
    amp = np.sqrt((n + 1) * (1 if m == 0 else 2)) if norm else 1.0
    if np.ndim(got) == 0:
        want = np.squeeze(want)
    rec.close(got, want, f"Z({n},{m}) {what}", rtol=1e-9, scale=amp)
    rec.nontrivial = rec.nontrivial or np.any(want)
    outside = np.asarray(r) > 1
    if outside.any():
        rec.ok((np.asarray(got)[outside] == 0).all(), f"Z({n},{m}) is not exactly zero outside the unit disk")
        rec.ev("outside", int(outside.sum()))
    rec.ev("rim", int((np.asarray(r) == 1).sum()))
    rec.ev("mode")


def check(case, rec):
    from pyotf.zernike import zernike
    rng = np.random.default_rng(case["seed"])
    what = case["what"]
    if what == "values":
        n = int(rng.integers(0, case["top"] + 1))
        m = int(rng.integers(-n, n + 1))
        if (n - m) % 2 and rng.random() < 0.8:
            m += 1 if m < n else -1
        shape = [(13,), (5, 7), (4, 4), (1, 9), (30,)][int(rng.integers(5))] if rng.random() < 0.9 else [(4000,), (65, 70), (130, 128), (300, 2)][int(rng.integers(4))]
        r, th = points(rng, shape)
        r0, t0 = r.copy(), th.copy()
        kw = [{}, dict(norm=True), dict(norm=False)][int(rng.integers(3))]
        norm = kw.get("norm", True)
        got = zernike(r, th, n, m, **kw)
        rec.ok((r == r0).all() and (th == t0).all(), "coordinates were modified")
        rec.tag(degree=min(n // 10 * 10, 90), odd=(n - m) % 2, norm=norm)
        one(rec, got, n, m, np.squeeze(r), np.squeeze(th), norm, "values")
        if (n - m) % 2:
            rec.ok(not np.any(got), "Z is not identically zero for odd n - m")
        else:
            # exact arithmetic at a few points
            amp = np.sqrt((n + 1) * (1 if m == 0 else 2)) if norm else 1.0
            rr = r.reshape(-1)[:4]
            tt = th.reshape(-1)[:4]
            want = [(ref.radial_exact(n, abs(m), a) if a <= 1 else 0.0) * (np.cos(m * b) if m >= 0 else np.sin(-m * b)) * amp
                    for a, b in zip(rr, tt)]
            g = np.asarray(got).reshape(-1)[:4]
            rec.close(g, np.array(want), f"Z({n},{m}) against rational arithmetic", rtol=1e-9, scale=amp)
            rec.ev("exact_points", 4)
            # single points, also as ints
            i = int(rng.integers(len(rr)))
            rec.close(zernike(float(rr[i]), float(tt[i]), n, m, **kw), np.float64(want[i]), "scalar evaluation", rtol=1e-9, scale=amp)
            for x in (0, 1):
                rec.close(zernike(x, 0, n, abs(m), **kw), zernike(float(x), 0.0, n, abs(m), **kw), "integer coordinates differ from floats")
            rec.close(zernike(1, 0, n, abs(m), norm=False), np.float64(1.0), "unnormalised polynomial is not 1 at the rim")
        for bad in (lambda: zernike(r, th, n, n + 1 + n % 2), lambda: zernike(r, th, n, -n - 2),
                    lambda: zernike(-r - 1e-9, th, n, m)):
            if rng.random() < 0.4:
                rec.raises(bad, "invalid degrees or radius")
                rec.ev("rejected")
    elif what == "degree":
        n = case["n"]
        r, th = points(rng, (12, 5))
        for m in range(-n, n + 1):
            for norm in (True, False):
                one(rec, zernike(r, th, n, m, norm=norm), n, m, r, th, norm, "of the table")
    elif what == "gram":
        # exact: Gauss-Legendre in r^2 and trapezoid in theta
        x, w = np.polynomial.legendre.leggauss(18)
        r = np.sqrt((x + 1) / 2)
        th = 2 * np.pi * np.arange(64) / 64
        rr, tt = np.meshgrid(r, th, indexing="ij")
        W = (w / 2)[:, None] / 64 * np.ones_like(tt)
        z = zernike(rr, tt, np.arange(1, 121), norm=case["norm"])
        rec.shape(z, (120,) + rr.shape, "stack of modes")
        G = np.einsum("iab,jab,ab->ij", z, z, W)
        nm = np.array([ref.noll_to_nm(j) for j in range(1, 121)])
        d = np.ones(120) if case["norm"] else 1 / ((nm[:, 0] + 1) * np.where(nm[:, 1] == 0, 1, 2))
        rec.close(G, np.diag(d), "modes are not orthonormal over the disk", rtol=1e-9)
        for j, v in enumerate(z, 1):
            one(rec, v, *ref.noll_to_nm(j), rr, tt, case["norm"], f"Noll {j}")
        rec.ev("gram_entries", G.size)
    else:
        shape = [(6,), (3, 4)][int(rng.integers(2))]
        r, th = points(rng, shape)
        k = int(rng.integers(2, 8))
        js = rng.integers(1, 121, k)
        nm = [ref.noll_to_nm(int(j)) for j in js]
        n, m = np.array([a for a, _ in nm]), np.array([b for _, b in nm])
        want = np.array([ref.zernike_nm(a, b, r, th) for a, b in nm])
        forms = dict(noll_array=lambda: zernike(r, th, js), noll_list=lambda: zernike(r, th, [int(j) for j in js]),
                     noll_tuple=lambda: zernike(r, th, tuple(int(j) for j in js)), nm_arrays=lambda: zernike(r, th, n, m),
                     nm_lists=lambda: zernike(r, th, n.tolist(), m.tolist()), nm_pair=lambda: zernike(r, th, (n, m)),
                     nm_stack=lambda: zernike(r, th, np.array([n, m])),
                     coords_lists=lambda: zernike(r.tolist(), th.tolist(), js),
                     noll_int8=lambda: zernike(r, th, js.astype(np.int8)), noll_int32=lambda: zernike(r, th, js.astype(np.int32)))
        for name, fn in forms.items():
            rec.close(fn(), want, f"call form {name}", rtol=1e-9)
            rec.ev("mode", k)
        j = int(js[0])
        for name, fn in dict(noll=lambda: zernike(r, th, j), noll0d=lambda: zernike(r, th, np.int64(j)),
                             nm=lambda: zernike(r, th, nm[0][0], nm[0][1])).items():
            rec.close(fn(), want[0], f"call form {name}", rtol=1e-9)
        plain = np.array([ref.zernike_nm(a, b, r, th, False) for a, b in nm])
        for flag in (1, 0, np.True_, np.False_, True, False):
            rec.close(zernike(r, th, js, norm=flag), want if flag else plain, f"norm={flag!r}", rtol=1e-9)
        rec.raises(lambda: zernike(np.ones((2, 2, 2)), np.ones((2, 2, 2)), j), "three-dimensional coordinates")
        rec.raises(lambda: zernike(r, th, 0), "Noll index 0")
        rec.raises(lambda: zernike(r, th, 1, 1, 1), "three positional degrees")
        rec.raises(lambda: zernike(r, th), "no degrees")
        # one bad entry among good ones is enough
        i = int(rng.integers(k))
        for m_bad in (n[i] + 2, -n[i] - 2, n[i] + 1, -n[i] - 1):
            mb = m.copy()
            mb[i] = m_bad
            rec.raises(lambda: zernike(r, th, n, mb), "|m| > n in one of the requested modes", n=n, m=mb)
            rec.raises(lambda: zernike(r, th, (n, mb)), "|m| > n in one of the requested modes", n=n, m=mb)
        rb = r.copy()
        rb.reshape(-1)[int(rng.integers(r.size))] = -float(rng.uniform(1e-9, 1))
        rec.raises(lambda: zernike(rb, th, j), "one negative radius")
        rec.raises(lambda: zernike(rb, th, n, m), "one negative radius")
        rec.raises(lambda: zernike(r, th, n, m[:-1]), "degrees of different lengths")
        rec.raises(lambda: zernike(r, th, np.array([n, n]), np.array([m, m])), "two-dimensional degrees")
        rec.raises(lambda: zernike(r, th, np.array([n, m, m])), "three rows of degrees")
        rec.raises(lambda: zernike(r, th, np.array([[n, m], [n, m]])), "three-dimensional degrees")
        rec.ev("rejected", 18)
