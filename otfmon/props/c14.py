"""C14: phase retrieval recovers the pupil that generated the data."""
import numpy as np

from .. import gen, ref

ID = "C14"
RULE = ("stacks of the reference plane wave model for pupils composed of Noll modes 4 to 15 (strength up to 0.9 rad rms, magnitude "
        "modes up to 6 %), asymmetric plane sets as z range or even z size, odd and even grids, intensity scales over eight "
        "decades, length units over twelve, full and phase-only; displaced pupils with phases of several turns; non-trivial when the pupil differs from the ideal aperture")
ASSUMPTIONS = ["pupils with at least 4 samples per aperture radius; six or more planes spanning 1.5 to 4 depths of focus",
               "after 150 iterations with tolerances zero: overlap above 0.999 and error below 1e-3 of the first",
               "phase jumps are judged where neighbouring samples of the true phase differ by less than 2 rad"]
MIN_EVENTS = {"recovered_full": 15, "recovered_phase_only": 15, "zernike_coefs": 20, "unwrapped": 30, "ideal": 13, "scaling": 13, "continuous": 50, "turns": 7}


def optics(rng, samples=4, sizes=(20, 21, 24, 25, 27, 32, 33, 40, 41), pixels=(0.3, 0.75)):
    while True:
        na = float(rng.uniform(0.4, 1.35))
        u = float(rng.choice([1.0, 1.0, 1e-3, 1e-9, 1e3]))
        cfg = dict(wl=525.0 * u * float(rng.uniform(0.8, 1.3)), na=na, ni=na / float(rng.uniform(0.45, 0.95)))
        cfg["res"] = cfg["wl"] / 2 / na * float(rng.uniform(*pixels))
        cfg["size"] = int(rng.choice(sizes))
        cfg.update(vec_corr="none", condition="none")
        if cfg["size"] * cfg["res"] * na / cfg["wl"] < samples or not gen.edge_clear(cfg):
            continue
        dof = cfg["wl"] / (cfg["ni"] - np.sqrt(cfg["ni"] ** 2 - na ** 2))
        if rng.random() < 0.3:
            cfg.update(zsize=int(rng.choice([6, 8])), zres=dof * float(rng.uniform(0.35, 0.5)))
        else:
            z = np.array([-1.3, -0.6, 0, 0.35, 0.9, 2.2]) * float(rng.choice([-1, 1])) * rng.uniform(0.7, 1.2)
            z = (z + rng.uniform(-0.1, 0.1, 6)) * dof
            cfg["zrange"] = [float(v) for v in rng.permutation(z)]
        return cfg


def long_stack(rng):
    """Many planes: without the later ones the pupil is not determined."""
    cfg = optics(rng)
    n = int(rng.integers(15, 40))
    dof = cfg["wl"] / (cfg["ni"] - np.sqrt(cfg["ni"] ** 2 - cfg["na"] ** 2))
    for k in ("zsize", "zres"):
        cfg.pop(k, None)
    # half of the planes are close to focus and cannot tell the sign of even modes
    flat, rest = rng.uniform(-0.1, 0.1, n), rng.uniform(0.2, 2.2, n) * rng.choice([-1, 1])
    z = [np.append(flat, rest), np.append(rest, flat), np.stack([flat, rest], 1).ravel(), np.stack([rest, flat], 1).ravel()]
    cfg["zrange"] = [float(v) for v in z[int(rng.integers(4))] * dof]
    return cfg


def cases(rng, tier):
    for rep in range(40 if tier == "quick" else 800):
        for po in (False, True):
            yield dict(what="recover", cfg=optics(rng), phase_only=po, strength=float(rng.uniform(0.1, 0.9)),
                       scale=1.0 if po else float(10.0 ** rng.integers(-3, 6)), seed=int(rng.integers(2**31)))
    for rep in range(8 if tier == "quick" else 40):
        yield dict(what="recover", cfg=long_stack(rng), phase_only=bool(rep % 2), strength=float(rng.uniform(0.1, 0.9)), scale=1.0,
                   seed=int(rng.integers(2**31)))
    for rep in range(20 if tier == "quick" else 400):
        # pixels close to the Abbe limit, where the pupil nearly fills the grid
        yield dict(what="recover", cfg=optics(rng, pixels=(0.75, 0.98)), phase_only=bool(rep % 2), strength=float(rng.uniform(0.1, 0.9)),
                   scale=1.0, seed=int(rng.integers(2**31)))
    for rep in range(30 if tier == "quick" else 400):
        # phases of several turns
        yield dict(what="turns", cfg=optics(rng, 7, (40, 41, 48, 49)), phase_only=bool(rep % 2), strength=float(rng.uniform(2, 5)),
                   iters=int(rng.choice([10, 30, 60])), seed=int(rng.integers(2**31)))
    for rep in range(25 if tier == "quick" else 400):
        # a third with pixels close to the Abbe limit, where the pupil nearly fills the grid
        kw = dict(pixels=(0.75, 0.98), sizes=(9, 12, 16, 17, 20, 21, 24, 32)) if rep % 3 == 0 else {}
        yield dict(what="ideal", cfg=optics(rng, **kw), phase_only=bool(rep % 2), seed=int(rng.integers(2**31)))
        yield dict(what="scaling", cfg=optics(rng, **kw), phase_only=bool(rep % 2), scale=float(10.0 ** rng.uniform(-4, 5)),
                   seed=int(rng.integers(2**31)))


def params_of(cfg):
    out = {k: cfg[k] for k in ("wl", "na", "ni", "res", "zres") if k in cfg}
    if "zrange" in cfg:
        out["zrange"] = np.array(cfg["zrange"])
    return out


def unwrapped(rec, r, ap):
    """The phase is the unwrapped one wherever the pupil determines it."""
    w = np.angle(np.exp(1j * r.phase))
    steps = []
    for ax in (0, 1):
        d = np.diff(w, axis=ax)
        steps.append(d - 2 * np.pi * np.round(d / 2 / np.pi))
    dy, dx = steps
    iy = ap[1:] & ap[:-1]
    ix = ap[:, 1:] & ap[:, :-1]
    cell = iy[:, 1:] & iy[:, :-1]
    turns = dy[:, 1:] - dy[:, :-1] - dx[1:] + dx[:-1]
    if np.abs(turns[cell]).max(initial=0) > 1 or max(np.abs(dy[iy]).max(initial=0), np.abs(dx[ix]).max(initial=0)) > 3:
        rec.ev("not_unwrappable")
        return
    jump = max(np.abs(np.diff(r.phase, axis=0)[iy]).max(initial=0), np.abs(np.diff(r.phase, axis=1)[ix]).max(initial=0))
    rec.ok(jump < 3.1, "the retrieved phase jumps although it could be continued without", jump=jump)
    rec.ev("continuous")
    if np.ptp(r.phase[ap]) > 2 * np.pi:
        rec.ev("turns")


def check(case, rec):
    from pyotf.phaseretrieval import retrieve_phase
    cfg, po = case["cfg"], case["phase_only"]
    rng = np.random.default_rng(case["seed"])
    ap = ref.aperture(cfg)
    rec.tag(what=case["what"], phase_only=po, parity=cfg["size"] % 2, z="list" if "zrange" in cfg else "zsize")

    if case["what"] == "ideal":
        r = retrieve_phase(ref.intensity(ref.hanser_psfa(cfg)), params_of(cfg), phase_only=po)
        rec.ok(len(r.mse) == 1, "data from the ideal aperture are not recognised immediately", records=len(r.mse))
        rec.close(ref.unshift2(r.mag), ap, "magnitude retrieved for the ideal aperture", rtol=1e-9)
        rec.close(r.phase, np.zeros_like(r.phase), "phase retrieved for the ideal aperture", atol=1e-9)
        rec.nontrivial = True
        rec.ev("ideal")
        return

    Z = ref.zernike_stack(cfg, 15)
    if case["what"] == "turns":
        c = np.zeros(15)
        # mostly displacements, they survive few iterations
        c[1:3], c[3:] = rng.normal(size=2), rng.normal(size=12) * rng.choice([0.02, 0.2, 0.5])
        c *= case["strength"] / np.linalg.norm(c)
        data = ref.intensity(ref.hanser_psfa(cfg, ap * np.exp(1j * np.tensordot(c, Z, 1))))
        r = retrieve_phase(data, params_of(cfg), max_iters=case["iters"], pupil_tol=0, mse_tol=0, phase_only=po)
        unwrapped(rec, r, ref.shift2(ap) > 0)
        rec.nontrivial = True
        return
    c, m = np.zeros(15), np.zeros(15)
    c[3:] = rng.normal(size=12)
    c *= case.get("strength", 0.5) / np.linalg.norm(c)
    if not po:
        m[3:] = rng.normal(size=12)
        m *= rng.uniform(0, 0.15) / np.linalg.norm(m)
    phi = np.tensordot(c, Z, 1)
    P = ap * (1 + np.tensordot(m, Z, 1)) * np.exp(1j * phi)
    data = ref.intensity(ref.hanser_psfa(cfg, P))

    if case["what"] == "scaling":
        s = case["scale"]
        d = data * rng.uniform(0.8, 1.2, data.shape)
        a = retrieve_phase(d, params_of(cfg), max_iters=8, pupil_tol=0, mse_tol=0, phase_only=po)
        b = retrieve_phase(d * s, params_of(cfg), max_iters=8, pupil_tol=0, mse_tol=0, phase_only=po)
        rec.close(b.mag, a.mag * (1 if po else np.sqrt(s)), "scaling the data does not scale the magnitude by its root", rtol=1e-6)
        pa, pb = np.exp(1j * a.phase), np.exp(1j * b.phase)
        w = a.mag / a.mag.max()
        rec.close(pb * w, pa * w, "scaling the data changes the phase", rtol=1e-6)
        rec.ev("scaling")
        return

    s = case["scale"]
    r = retrieve_phase(data * s, params_of(cfg), max_iters=150, pupil_tol=0, mse_tol=0, phase_only=po)
    Q = ref.unshift2(r.mag * np.exp(1j * r.phase))
    rec.ok(np.isfinite(Q).all() and Q.any(), "retrieved pupil is not finite or empty")
    ov = np.vdot(P, Q) / np.linalg.norm(P) / np.linalg.norm(Q)
    rec.ok(abs(ov) > 0.999, "the generating pupil was not recovered", overlap=abs(ov))
    norm = np.linalg.norm(Q) / np.linalg.norm(P) / (1 if po else np.sqrt(s))
    rec.ok(abs(norm - 1) < 0.002, "magnitude of the recovered pupil", ratio=norm)
    if len(r.mse) > 1:
        rec.ok(r.mse[-1] < 1e-3 * r.mse[0], "PSF error was not reduced by orders of magnitude", first=r.mse[0], last=r.mse[-1])
    err = ((data * s - r.model.PSFi) ** 2).mean()
    rec.ok(err <= max(1e-3 * r.mse[0], 1e-12 * (data * s).max() ** 2), "PSF of the returned model does not reproduce the data",
           err=err, first=r.mse[0])
    rec.nontrivial = True
    unwrapped(rec, r, ref.shift2(ap) > 0)
    rec.ev("recovered_phase_only" if po else "recovered_full")
    # the phase is the smooth one of the pupil, without jumps
    step = max(np.abs(np.diff(ref.shift2(phi), axis=ax))[
        (np.minimum(*[np.take(ref.shift2(ap), np.arange(k, ap.shape[0] - 1 + k), ax) for k in (0, 1)]) > 0)].max() for ax in (0, 1))
    if step < 2:
        e = (ref.unshift2(r.phase) - phi)[ap > 0]
        rec.ok(np.ptp(e) < 0.5, "the retrieved phase differs from the true one by more than a constant", spread=np.ptp(e))
        rec.ev("unwrapped")
        fit = r.fit_to_zernikes(15)
        rec.close(fit.pcoefs[1:], c[1:], "phase coefficients of the recovered pupil", scale=1, atol=0.05)
        w = m * np.sqrt(s)
        w[0] = np.sqrt(s)
        rec.close(fit.mcoefs, w, "magnitude coefficients of the recovered pupil", rtol=0.05)
        rec.ev("zernike_coefs")
