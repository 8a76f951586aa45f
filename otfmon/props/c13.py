"""C13: phase retrieval iterates as documented; records and result are faithful.

Observed from outside: the pupil after k updates is the result of a run limited
to k iterations, so the whole trajectory is reconstructed from runs with
max_iters = 1, 2, ... and judged with the reference plane wave model.
"""
import pathlib

import numpy as np

from .. import drv, gen, ref

ID = "C13"
RULE = ("random stacks (model based with noise, pure noise, sparse, integer typed, one plane, nearly extinguishing a pupil sample, two measured bead stacks), sizes of both parities, "
        "z steps or z ranges, full and phase-only; trajectories of up to 12 iterations, then early stopping with tolerances "
        "placed between recorded values of each criterion; non-trivial when the pupil changes")
ASSUMPTIONS = ["a single update is judged only where no field sample is too close to zero to have a phase",
               "equalities to 1e-7 of the largest value; the misfit may grow by 1e-9 of the data (rounding)"]
MIN_EVENTS = {"iteration": 507, "update": 300, "misfit_step": 400, "stop_pupil": 20, "stop_mse_diff": 20, "stop_mse": 10,
              "stop_never": 60, "measured": 3, "late_update": 15, "default": 40, "default_stop": 5}
CHUNK = 1
DATA = pathlib.Path(__file__).resolve().parent.parent / "data" / "measured.npz"


def cases(rng, tier):
    for rep in range(110 if tier == "quick" else 2000):
        cfg = gen.hanser(rng, sizes=(5, 6, 8, 9, 12, 13, 15, 16, 21), zmode=str(rng.choice(["zs", "zs", "list", "one"])),
                         max_ratio=0.95, max_z=5, nyquist=(0.15, 0.9))
        yield dict(cfg=cfg, data=str(rng.choice(["model", "model", "noise", "sparse", "uint8", "uint16", "int64", "float32"])),
                   phase_only=bool(rng.random() < 0.4), K=int(rng.choice([4, 6, 9, 12])), seed=int(rng.integers(2**31)))
    for rep in range(16 if tier == "quick" else 200):
        # stacks without information: empty, a single bright voxel, one bright plane among empty ones, constant
        cfg = gen.hanser(rng, sizes=(5, 6, 8, 9, 12), zmode="zs", max_ratio=0.95, max_z=5, nyquist=(0.15, 0.9))
        yield dict(cfg=cfg, data=("empty", "voxel", "plane", "constant")[rep % 4], phase_only=bool(rep // 4 % 2), K=4,
                   seed=int(rng.integers(2**31)))
    for rep in range(10 if tier == "quick" else 100):
        cfg = gen.hanser(rng, sizes=(8, 9, 12, 13, 16), zmode="zs", max_ratio=0.95, max_z=4, nyquist=(0.3, 0.9))
        yield dict(cfg=cfg, data="weak", phase_only=False, K=3, seed=int(rng.integers(2**31)))
    for rep in range(4 if tier == "quick" else 40):
        cfg = gen.hanser(rng, sizes=(6, 9), zmode="zs", max_ratio=0.95, nyquist=(0.15, 0.9))
        cfg.update(zsize=int(rng.integers(20, 150)), zres=cfg["zres"] * 0.1)
        yield dict(cfg=cfg, data="model", phase_only=bool(rep % 2), K=4, seed=int(rng.integers(2**31)))
    for rep in range(2 if tier == "quick" else 20):
        cfg = gen.hanser(rng, sizes=(48, 64), zmode="zs", max_ratio=0.95, nyquist=(0.15, 0.9))
        yield dict(cfg=cfg, data="model", phase_only=bool(rep % 2), K=5, seed=int(rng.integers(2**31)))
    for rep in range(6 if tier == "quick" else 60):
        # measured stacks, cut to a window and a range of planes
        air = rep % 2 == 0
        n = int(rng.choice([16, 21, 32, 45]))
        cfg = dict(wl=520.0, na=0.85, ni=1.0, res=130.0) if air else dict(wl=605.0, na=1.1, ni=1.33, res=102.0)
        first = int(rng.integers(0, 12))
        cfg.update(size=n, zsize=int(rng.integers(1, 9)), zres=300.0, first=first)
        yield dict(cfg=cfg, data="air" if air else "water", phase_only=bool(rep // 2 % 2), K=6, seed=int(rng.integers(2**31)))


def make_data(rng, cfg, kind):
    if kind in ("air", "water"):
        a = np.load(DATA)[kind].astype(int)
        y, x = (32 - cfg["size"] // 2 + int(rng.integers(-4, 5)) for _ in range(2))
        d = a[cfg["first"]:cfg["first"] + cfg["zsize"], y:y + cfg["size"], x:x + cfg["size"]]
        return np.maximum(0, d - int(np.median(a) * 1.1))
    n, nz = cfg["size"], len(ref.zvalues(cfg))
    shape = (nz, n, n)
    if kind == "noise":
        return rng.uniform(0, 1, shape) * 10.0 ** rng.integers(-3, 4)
    if kind == "sparse":
        d = np.zeros(shape)
        d.reshape(-1)[rng.integers(0, d.size, max(1, d.size // 9))] = rng.uniform(1, 5)
        return d
    if kind == "weak":
        return weak_sample(rng, cfg, shape)
    if kind in ("empty", "voxel", "plane", "constant"):
        d = np.zeros(shape)
        if kind == "voxel":
            d[tuple(rng.integers(0, shape))] = 7
        elif kind == "plane":
            d[rng.integers(nz)] = rng.uniform(1, 2, shape[1:])
        elif kind == "constant":
            d += 2.5
        return d
    c = dict(cfg, vec_corr="none", condition="none")
    p = ref.aperture(cfg) * np.exp(1j * rng.normal(size=(n, n)) * rng.uniform(0.1, 2))
    d = ref.intensity(ref.hanser_psfa(c, p))
    d = d / max(d.max(), 1e-300)
    d = d + rng.uniform(0, 0.05, shape)
    if kind == "model":
        return d * 10.0 ** rng.integers(-3, 4)
    if kind == "float32":
        return d.astype(np.float32)
    top = {"uint8": 250, "uint16": 60000, "int64": 10**6}[kind]
    return np.rint(d * top / d.max()).astype(kind)


def weak_sample(rng, cfg, shape):
    """Data for which the first update nearly removes one sample of the pupil."""
    ap, zs, n = ref.aperture(cfg), ref.zvalues(cfg), cfg["size"]
    f = ref.hanser_psfa(dict(cfg, vec_corr="none", condition="none"), ap.astype(complex))[0]
    ph = f / np.where(f == 0, 1, np.abs(f))
    i, j = rng.permutation(np.argwhere(ap > 0))[0]
    _, _, kr = ref.pupil_geometry(cfg)
    k, x = gen.freqs(n, 1), ref.centred(n)
    kz = np.sqrt((cfg["ni"] / cfg["wl"]) ** 2 - kr[i, j] ** 2)
    wave = np.exp(2j * np.pi * (k[i] * x[:, None] + k[j] * x[None, :])) * np.exp(2j * np.pi * kz * np.asarray(zs, float))[:, None, None]
    mag = np.abs(f)
    target = 10.0 ** -rng.uniform(3, 6)
    for _ in range(40):
        left = (mag * ph * wave.conj()).sum() / len(zs) - target
        # change along the two directions that move this sample
        b = np.array([np.real(ph.conj() * wave), np.real(ph.conj() * wave * 1j)])
        A = np.array([(v * ph * wave.conj()).sum() / len(zs) for v in b])
        M = np.array([A.real, A.imag])
        if abs(np.linalg.det(M)) < 1e-9 * np.abs(M).max() ** 2:
            w = np.array([left.real / A[0].real if A[0].real else 0, 0])
        else:
            w = np.linalg.solve(M, [left.real, left.imag])
        mag = np.maximum(0, mag - np.tensordot(w, b, 1))
    return mag ** 2


def unshifted(res):
    return ref.unshift2(np.asarray(res.mag) * np.exp(1j * np.asarray(res.phase)))


def check(case, rec):
    from pyotf.phaseretrieval import retrieve_phase
    cfg = dict(case["cfg"], vec_corr="none", condition="none")
    rng = np.random.default_rng(case["seed"])
    data = make_data(rng, cfg, case["data"])
    cfg.pop("first", None)
    po, K = case["phase_only"], case["K"]
    params = {k: cfg[k] for k in ("wl", "na", "ni", "res")}
    if cfg.get("zrange") is not None:
        params["zrange"] = np.array(cfg["zrange"])
    else:
        params["zres"] = cfg.get("zres", cfg["res"])
    if rng.random() < 0.3:
        params.update(size=3, zsize=77, vec_corr="total", condition="sine")  # documented to be overridden
    if case["data"] in ("air", "water"):
        rec.ev("measured")
    rec.tag(data=case["data"], phase_only=po, nz=len(data), parity=cfg["size"] % 2)
    ap = ref.aperture(cfg)
    zs = ref.zvalues(cfg)
    d = data.astype(float)
    mag = np.sqrt(d)
    D = d.sum()
    nsq = cfg["size"] ** 2

    runs = [retrieve_phase(data, params, max_iters=k, pupil_tol=0, mse_tol=0, phase_only=po) for k in range(1, K + 1)]
    pupils = [ap.astype(complex)] + [unshifted(r) for r in runs]
    fields = [ref.hanser_psfa(cfg, p, zs)[0] for p in pupils]
    mses = [((d - np.abs(f) ** 2) ** 2).mean() for f in fields]
    misfit = [((mag - np.abs(f)) ** 2).sum() for f in fields]
    last = runs[-1]
    for k, r in enumerate(runs, 1):
        what = f"max_iters={k}"
        for name in ("mse", "mse_diff", "pupil_diff"):
            v = getattr(r, name)
            rec.ok(np.shape(v) == (k,), f"{what}: number of records of {name}", got=np.shape(v))
            rec.close(v, getattr(last, name)[:k], f"records of {name} depend on max_iters", rtol=1e-9)
        P = pupils[k]
        rec.ok(r.mag.shape == data.shape[1:] and r.phase.shape == data.shape[1:], "shape of the retrieved pupil")
        rec.ok(np.isfinite(P).all(), "retrieved pupil is not finite")
        rec.ok(not np.any(P[ap == 0]), "retrieved pupil is not zero outside the aperture")
        if po:
            rec.close(np.abs(P[ap > 0]), np.ones(int(ap.sum())), "phase-only pupil does not have unit magnitude")
        rec.close(r.model.PSFi, np.abs(fields[k]) ** 2, "the returned model does not have the returned pupil", rtol=1e-7)
        rec.ev("stop_never")
    for i in range(K):
        rec.close(last.mse[i], mses[i], "recorded mean squared error is not that of the pupil", rtol=1e-7, atol=1e-12 * (d ** 2).mean())
        rec.ev("iteration")
        if i == 0:
            rec.ok(np.isnan(last.mse_diff[0]) and np.isnan(last.pupil_diff[0]), "first relative changes are not undefined")
            continue
        with np.errstate(all="ignore"):
            dm = abs(last.mse[i - 1] - last.mse[i]) / last.mse[i - 1]
            dp = (np.abs(pupils[i - 1] - pupils[i]) ** 2).sum() / (np.abs(pupils[i - 1]) ** 2).sum()
        if np.isfinite(dm):
            rec.close(last.mse_diff[i], dm, "recorded relative change of the error", rtol=1e-6, atol=1e-12)
        if np.isfinite(dp):
            rec.close(last.pupil_diff[i], dp, "recorded relative change of the pupil", rtol=1e-6, atol=1e-13)
    # the misfit never grows
    for i in range(K):
        rec.ok(misfit[i + 1] <= misfit[i] + 1e-9 * (D + misfit[0]), "the amplitude misfit grew", step=i, before=misfit[i], after=misfit[i + 1])
        rec.ev("misfit_step")
    # each pupil is the documented update of the one before
    n = cfg["size"]
    k = gen.freqs(n, 1)
    F = np.exp(-2j * np.pi * np.outer(k, ref.centred(n)))
    _, _, kr = ref.pupil_geometry(cfg)
    kz = np.sqrt(np.maximum(0, (cfg["ni"] / cfg["wl"]) ** 2 - kr ** 2))

    def step(f):
        """The documented update of the pupil with these fields, None where it isn't determined."""
        a = np.abs(f)
        if ((a < 1e-7 * a.max()) & (mag > 0)).any() or not a.any():
            return None
        new = np.mean([F @ (m * g / np.where(h > 0, h, 1)) @ F.T * np.exp(-2j * np.pi * kz * z)
                       for m, g, h, z in zip(mag, f, a, zs)], axis=0) * ap
        if po:
            if (np.abs(new[ap > 0]) <= 1e-6 * np.abs(new).max()).any():
                return None
            new = np.where(ap > 0, new / np.where(new == 0, 1, np.abs(new)), 0)
        return new

    for i in range(K):
        new = step(fields[i])
        if new is None:
            continue
        rec.close(pupils[i + 1], new, "the pupil is not the documented update of the previous one", rtol=1e-8, step=i)
        rec.ev("update")
    if case["data"] == "weak":
        got = np.abs(pupils[1][ap > 0])
        if ((got > 0) & (got < 3e-3 * got.max())).any():
            rec.ev("weak_sample")
    rec.nontrivial = bool(np.abs(pupils[-1] - pupils[0]).max() > 1e-6)

    if data.size <= 1200 and rng.random() < 0.5:
        late(rec, rng, data, params, cfg, mag, po, step)

    # early stopping
    m, md, pd = last.mse, last.mse_diff, last.pupil_diff

    def tolerance(values, i):
        """A tolerance met first at record i by these values, if any."""
        prev = np.nanmin(np.append(values[:i], np.inf))
        v = values[i]
        if not np.isfinite(v) or not v < prev * (1 - 1e-6):
            return None
        return float(v * 1.0000001) if not np.isfinite(prev) else float(np.sqrt(v * prev)) if v > 0 else float(prev / 2)

    for crit, vals in (("pupil", pd), ("mse_diff", md), ("mse", m)):
        for i in rng.permutation(K)[:3]:
            t = tolerance(vals, int(i))
            if t is None:
                continue
            pt, mt = (t, 0) if crit == "pupil" else (0, t)
            hit = [j for j in range(K) if pd[j] < pt or md[j] < mt or m[j] < mt]
            if crit != "pupil" and any(abs(x[j] / mt - 1) < 1e-6 for x in (md, m) for j in range(K) if np.isfinite(x[j])):
                continue
            if not hit:
                continue
            stop = hit[0]
            extra = int(rng.choice([0, 1, 30]))
            r = retrieve_phase(data, params, max_iters=K + extra, pupil_tol=pt, mse_tol=mt, phase_only=po)
            rec.ok(len(r.mse) == stop + 1 == len(r.mse_diff) == len(r.pupil_diff), f"did not stop at the first record meeting the {crit} tolerance",
                   got=len(r.mse), want=stop + 1)
            rec.close(unshifted(r), pupils[stop], "result is not the pupil of the last record", rtol=1e-9)
            rec.close(r.mse, m[:stop + 1], "records of an early stop", rtol=1e-9)
            rec.close(r.model.PSFi, np.abs(fields[stop]) ** 2, "the returned model does not have the returned pupil (early stop)", rtol=1e-7)
            rec.close(r.mse[-1], ((d - r.model.PSFi) ** 2).mean(), "last recorded error is not that of the returned model", rtol=1e-7,
                      atol=1e-12 * (d ** 2).mean())
            rec.ev("stop_" + crit)
    if data.size <= 600 and rng.random() < 0.5:
        defaults(rec, rng, data, params)


def late(rec, rng, data, params, cfg, mag, po, step):
    """The same rules hold after many iterations."""
    from pyotf.phaseretrieval import retrieve_phase
    n = int(rng.integers(15, 150))
    runs = [retrieve_phase(data, params, max_iters=n + k, pupil_tol=0, mse_tol=0, phase_only=po) for k in (0, 1)]
    for k, r in enumerate(runs):
        rec.ok(len(r.mse) == n + k, "a retrieval without tolerances stopped early", got=len(r.mse), want=n + k)
    fields = [ref.hanser_psfa(cfg, unshifted(r), ref.zvalues(cfg))[0] for r in runs]
    misfit = [((mag - np.abs(f)) ** 2).sum() for f in fields]
    rec.ok(misfit[1] <= misfit[0] + 1e-9 * (mag ** 2).sum(), "the amplitude misfit grew", step=n, before=misfit[0], after=misfit[1])
    rec.close(runs[1].mse[n], ((mag ** 2 - np.abs(fields[0]) ** 2) ** 2).mean(), "recorded mean squared error is not that of the pupil",
              rtol=1e-7, atol=1e-12 * (mag ** 4).mean())
    new = step(fields[0])
    if new is not None:
        rec.close(unshifted(runs[1]), new, "the pupil is not the documented update of the previous one", rtol=1e-6, step=n)
        rec.ev("late_update")


def defaults(rec, rng, data, params):
    """Options left out have their documented values (200, 1e-8, 1e-8, False)."""
    from pyotf.phaseretrieval import retrieve_phase
    long = retrieve_phase(data, params, max_iters=500, pupil_tol=0, mse_tol=0, phase_only=False)
    m, md, pd = long.mse, long.mse_diff, long.pupil_diff

    def stop(most, pt, mt):
        hit = [j for j in range(len(m)) if pd[j] < pt or md[j] < mt or m[j] < mt]
        near = [j for j in range(len(m)) for v, t in ((pd[j], pt), (md[j], mt), (m[j], mt)) if t and abs(v / t - 1) < 1e-4]
        if near and near[0] <= min(hit + [most]):
            return None
        return min(hit[0] + 1 if hit else most, most)

    for given in ({}, dict(max_iters=500, mse_tol=0), dict(max_iters=500, pupil_tol=0), dict(pupil_tol=0, mse_tol=0)):
        n = stop(given.get("max_iters", 200), given.get("pupil_tol", 1e-8), given.get("mse_tol", 1e-8))
        if n is None:
            continue
        r = retrieve_phase(data, params, **given)
        rec.ok(len(r.mse) == n, "options left out do not have their documented values", given=given, got=len(r.mse), want=n)
        rec.close(r.mse[:min(n, 50)], m[:min(n, 50)], "options left out do not have their documented values", rtol=1e-6, atol=1e-12 * (data.astype(float) ** 2).mean())
        rec.ev("default")
        if n not in (200, 500):
            rec.ev("default_stop")
