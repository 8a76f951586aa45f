"""C15: Zernike fits of a result and PSFs regenerated from it are exact and consistent."""
import numpy as np

from .. import core, drv, gen, ref

ID = "C15"
RULE = ("results of retrievals and results built from arbitrary magnitude and phase maps (composed of modes, rough), 1 to 120 modes, "
        "slices with steps, reversed and with negative ends, refits, regenerated PSFs with every combination of size (cropped, padded, both "
        "parities), z size and z range in random order; non-trivial when the pupil has structure")
ASSUMPTIONS = ["coefficients are compared where the modes are independent on the aperture samples (condition number below 1e5), "
               "otherwise the fitted surface", "no plane reaches beyond the propagating frequencies"]
MIN_EVENTS = {"fit": 150, "composed": 47, "recon": 300, "psf": 161, "zd_psf": 150, "padded": 60, "cropped": 60, "unchanged": 100, "rim": 24, "ideal": 12, "edited": 100}
CHUNK = 2
COUNTS = (1, 2, 3, 4, 5, 6, 10, 11, 15, 16, 21, 22, 36, 37, 55, 60, 91, 119, 120)


def cases(rng, tier):
    for rep in range(130 if tier == "quick" else 2500):
        size = int(rng.choice([6, 7, 9, 12, 13, 16, 17, 20, 24, 25, 32, 33]))
        if rep % 26 == 25:
            size = int(rng.choice([64, 97, 100, 128]))
        cfg = gen.hanser(rng, sizes=(size,), vec="none", cond="none", zmode=str(rng.choice(["zs", "zs", "list"])), max_ratio=0.95,
                         nyquist=(0.2, 0.95), max_z=4)
        yield dict(cfg=cfg, kind=str(rng.choice(["retrieved", "composed", "composed", "rough"])), seed=int(rng.integers(2**31)))
    for rep in range(12 if tier == "quick" else 200):
        # samples exactly at the diffraction limit, which are not part of the pupil
        yield dict(cfg=gen.rim_hanser(rng), kind=str(rng.choice(["retrieved", "composed", "rough"])), seed=int(rng.integers(2**31)),
                   rim=True)
    for rep in range(12 if tier == "quick" else 200):
        # the same up to rounding, for the round numbers people use
        na = float(rng.choice([0.5, 0.6, 0.75, 0.8, 0.95, 1.0, 1.2, 1.25, 1.3, 1.4]))
        size, m = int(rng.integers(12, 90)), int(rng.integers(3, 30))
        m = min(m, size // 2 - 1)
        wl = float(rng.choice([405, 450, 488, 500, 525, 560, 605, 640]))
        yield dict(cfg=dict(wl=wl, na=na, ni=na * float(rng.choice([1.05, 1.2, 1.6])), res=m * wl / na / size, size=size,
                            zrange=[0.0, wl]), kind="ideal", seed=int(rng.integers(2**31)), rim=True)


def params_of(cfg):
    out = {k: cfg[k] for k in ("wl", "na", "ni", "res", "zres") if k in cfg}
    if "zrange" in cfg:
        out["zrange"] = np.array(cfg["zrange"])
    return out


def rand_slice(rng, n):
    k = rng.random()
    if k < 0.15:
        return slice(None)
    if k < 0.3:
        return slice(4, None)
    lo = [None, int(rng.integers(0, n + 1)), -int(rng.integers(1, n + 1))][int(rng.integers(3))]
    hi = [None, int(rng.integers(0, n + 3)), -int(rng.integers(1, n + 1))][int(rng.integers(3))]
    return slice(lo, hi, [None, 1, 2, 3, -1, -2][int(rng.integers(6))])


def check(case, rec):
    from pyotf.phaseretrieval import PhaseRetrievalResult, retrieve_phase
    cfg = dict(case["cfg"])
    rng = np.random.default_rng(case["seed"])
    n = cfg["size"]
    if case.get("rim"):
        rec.ev("rim")
    if case["kind"] == "ideal":
        res = retrieve_phase(drv.hanser(dict(cfg, vec_corr="none", condition="none")).PSFi, params_of(cfg), phase_only=bool(rng.random() < 0.5))
        count = int(rng.choice(COUNTS[:12]))
        while count * 4 > np.count_nonzero(res.mag):
            count = max(1, count - 5)
        zd = res.fit_to_zernikes(count)
        rec.close(zd.mcoefs, np.eye(count)[0], "magnitude coefficients of the ideal pupil", rtol=0, atol=1e-5, size=n)
        rec.close(zd.pcoefs, np.zeros(count), "phase coefficients of the ideal pupil", rtol=0, atol=1e-5)
        a, b = res.generate_psf(), res.generate_zd_psf(sphase=slice(None))
        rec.close(b, a, "PSF of the fit to the ideal pupil", rtol=1e-5)
        rec.nontrivial = True
        rec.ev("ideal")
        return
    ap = ref.shift2(ref.aperture(cfg)) > 0
    zs = ref.zvalues(cfg)
    rec.tag(kind=case["kind"], size=n, nz=len(zs), z="list" if "zrange" in cfg else "zsize")
    allz = ref.zernike_stack(cfg, 120, shifted=True)
    truth = None
    if case["kind"] == "retrieved":
        data = ref.intensity(ref.hanser_psfa(cfg, drv.rand_pupil(rng, cfg, "phase"))) + 1e-4
        res = retrieve_phase(data, params_of(cfg), max_iters=int(rng.integers(1, 9)), phase_only=bool(rng.random() < 0.5))
    else:
        if case["kind"] == "composed":
            k = min(int(rng.choice(COUNTS[:12])), max(1, int(ap.sum()) // 3))
            truth = rng.normal(size=(2, k))
            mag, phase = (np.tensordot(t, allz[:k], 1) for t in truth)
        else:
            mag, phase = rng.uniform(0, 3, (n, n)) * ap, rng.normal(size=(n, n)) * 2 * ap
        model = drv.hanser(cfg)
        model.apply_pupil(ref.unshift2(mag * np.exp(1j * phase)))
        h = [np.arange(3.0)] * 3
        res = PhaseRetrievalResult(mag, phase, *h, model)
    mag, phase = np.array(res.mag), np.array(res.phase)
    rec.nontrivial = bool(np.ptp(mag) > 0)

    def state():
        return core.digest([res.mag, res.phase, res.mse, res.mse_diff, res.pupil_diff, res.na, res.wl, res.model.PSFa, res.model.PSFi,
                            np.array(res.model.zrange), res.model.zsize, res.model.zres, res.model.size, res.model.res])

    before = state()
    rec.close(res.complex_pupil, mag * np.exp(1j * phase), "complex pupil", rtol=1e-12)

    def fit(count):
        zd = res.fit_to_zernikes(count)
        rec.ok(zd is res.zd_result, "zd_result is not the last fit")
        rec.shape(zd.pcoefs, (count,), "phase coefficients")
        rec.shape(zd.mcoefs, (count,), "magnitude coefficients")
        A = allz[:count][:, ap].T
        sv = np.linalg.svd(A, compute_uv=False)
        good = A.shape[0] >= count and sv[0] < 1e5 * sv[-1]
        for name, got, data in (("phase", zd.pcoefs, phase), ("magnitude", zd.mcoefs, mag)):
            s = max(np.abs(data[ap]).max(), 1e-12)
            if good:
                # independent solution by QR
                q, r = np.linalg.qr(A)
                rec.close(got, np.linalg.solve(r, q.T @ data[ap]), f"{name} coefficients are not the least-squares fit", rtol=0,
                          atol=1e-9 * s * sv[0] / sv[-1], count=count)
            # normal equations hold in any case
            rec.close(A.T @ (A @ got - data[ap]), np.zeros(count), f"{name}: residual is not orthogonal to the modes",
                      atol=1e-7 * s * len(A), count=count)
        rec.ev("fit")
        rec.tag(count=count, conditioned=good)
        if truth is not None and good and count >= truth.shape[1]:
            k = truth.shape[1]
            for name, got, want in (("magnitude", zd.mcoefs, truth[0]), ("phase", zd.pcoefs, truth[1])):
                rec.close(got, np.concatenate([want, np.zeros(count - k)]), f"composed {name} is not recovered", rtol=0,
                          atol=1e-9 * sv[0] / sv[-1] * max(1, np.abs(want).max()))
            rec.ev("composed")
        return zd, count

    def recon(zd, count):
        for _ in range(2):
            s = rand_slice(rng, count)
            for name, f, co in (("phase", zd.phase, zd.pcoefs), ("mag", zd.mag, zd.mcoefs)):
                want = np.tensordot(co[s], allz[:count][s], 1)
                rec.close(f(s), want, f"{name} reconstructed from a slice is not the sum of its modes", rtol=0,
                          atol=1e-8 * max(1, np.abs(co).sum()), slice=str(s))
            rec.ev("recon", 2)
        sm, sp = rand_slice(rng, count), rand_slice(rng, count)
        want = np.tensordot(zd.mcoefs[sm], allz[:count][sm], 1) * np.exp(1j * np.tensordot(zd.pcoefs[sp], allz[:count][sp], 1))
        big = max(1, np.abs(zd.mcoefs).sum()) * max(1, np.abs(zd.pcoefs).sum())
        if big < 1e5:
            rec.close(zd.complex_pupil(sm, sp), want, "complex pupil reconstructed from slices", rtol=0, atol=1e-8 * big)
            rec.ev("recon")

    def psf(zd=None, count=None):
        kw = {}
        z = zs
        if rng.random() < 0.6:
            kw["size"] = int(rng.choice([1, 2, 3, n - 3, n - 2, n - 1, n, n + 1, n + 2, n + 5, 2 * n, 2 * n + 1]))
        k = rng.random()
        if k < 0.3:
            kw["zsize"] = int(rng.choice([v for v in (1, 2, 3, 4, 5, 6, 7) if v != len(zs)]))
            z = ref.zvalues({k: v for k, v in dict(cfg, zsize=kw["zsize"]).items() if k != "zrange"})
        elif k < 0.6:
            kw["zrange"] = rng.uniform(-2, 2, int(rng.integers(1, 5))) * cfg["wl"]
            z = kw["zrange"]
            keep = z.copy()
            if rng.random() < 0.3:
                kw["zrange"] = float(z[0])
                z = z[:1]
        if zd is None:
            got = res.generate_psf(**kw)
            pupil = mag * np.exp(1j * phase)
            what = "PSF regenerated from the pupil"
            rec.ev("psf")
        else:
            s = slice(4, None)
            if rng.random() < 0.5:
                s = rand_slice(rng, count)
                kw["sphase"] = s
            if np.abs(zd.mcoefs).sum() > 1e4 or np.abs(zd.pcoefs).sum() > 1e4:
                return
            got = res.generate_zd_psf(**kw)
            pupil = np.tensordot(zd.mcoefs, allz[:count], 1) * np.exp(1j * np.tensordot(zd.pcoefs[s], allz[:count][s], 1))
            what = "PSF regenerated from the fit"
            rec.ev("zd_psf")
        full = ref.intensity(ref.hanser_psfa(dict(cfg, vec_corr="none", condition="none"), ref.unshift2(pupil), z))
        size = kw.get("size", n)
        want = np.zeros((len(z), size, size))
        d = n // 2 - size // 2  # offset of the output in the model PSF
        lo, hi = max(0, -d), min(size, n - d)
        want[:, lo:hi, lo:hi] = full[:, lo + d:hi + d, lo + d:hi + d]
        rec.ev("padded" if size > n else "cropped" if size < n else "same_size")
        rec.close(got, want, what, rtol=1e-6, scale=full.max(), kw=str(kw))
        if isinstance(kw.get("zrange"), np.ndarray):
            rec.ok(np.array_equal(kw["zrange"], keep), "the caller's zrange was modified")

    # a history of fits, reconstructions and regenerated PSFs in random order
    zds = []
    for _ in range(9):
        k = rng.random()
        if not zds or k < 0.25:
            zds.append(fit(int(rng.choice(COUNTS if rng.random() < 0.5 else COUNTS[:10]))))
        elif k < 0.45:
            recon(*zds[int(rng.integers(len(zds)))])
        elif k < 0.75:
            psf()
        else:
            psf(*zds[-1])
        if zds and rng.random() < 0.3:
            # users correct single coefficients by hand
            zd, count = zds[-1]
            for co in (zd.pcoefs, zd.mcoefs):
                i = int(rng.integers(count))
                co[i] = [0.0, co[i] + 1.0, -co[i]][int(rng.integers(3))]
            recon(zd, count)
            psf(zd, count)
            rec.ev("edited")
        rec.ok(state() == before, "the result or its model changed")
        rec.ev("unchanged")
