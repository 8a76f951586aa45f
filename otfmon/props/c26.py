"""C26: the LabVIEW entry point is the documented pipeline on plain lists."""
import copy

import numpy as np

from .. import gen, ref

ID = "C26"
RULE = ("random integer stacks (simulated beads with background, noise, sparse; square and not; nested lists, lists of arrays, arrays of "
        "several types) and random parameters, tolerances that stop early, iteration limits and flags, given by position or by name or "
        "left out; compared with the documented steps called one by one; non-trivial when the phase is not zero")
ASSUMPTIONS = ["preparation and retrieval are themselves judged by C13, C14 and C16", "phases are compared to 1e-9 of the largest"]
MIN_EVENTS = {"call": 88, "not_square": 30, "positional": 30, "keyword": 27, "defaults": 5, "phase_only": 20, "stopped_early": 10,
              "unchanged": 88, "matters": 60}
CHUNK = 2
NAMES = ("wl", "na", "ni", "res", "zres", "max_iters", "pupil_tol", "mse_tol", "phase_only")


def cases(rng, tier):
    k = 1 if tier == "quick" else 15
    for i in range(160 * k):
        cfg = gen.hanser(rng, sizes=(6, 8, 9, 12, 13, 16), zmode="zs", max_ratio=0.95, max_z=4, nyquist=(0.2, 0.9))
        if i % 32 == 31:
            cfg = gen.hanser(rng, sizes=(32, 33, 48, 64), zmode="zs", max_ratio=0.95, max_z=4, nyquist=(0.2, 0.9))
        if i % 32 == 30:
            cfg["zsize"] = int(rng.integers(12, 40))
        cfg["zsize"] = max(2, cfg["zsize"])
        yield dict(cfg=cfg, kind=str(rng.choice(["list", "list", "arrays", "array", "uint8", "uint16", "tuple"])),
                   data=str(rng.choice(["bead", "bead", "noise", "sparse"])), full=bool(i % 12 == 0), seed=int(rng.integers(2**31)))


def stack(rng, cfg, kind):
    n, nz = cfg["size"], cfg["zsize"]
    if kind == "noise":
        d = rng.integers(0, 120, (nz, n, n))
    elif kind == "sparse":
        d = np.zeros((nz, n, n), int)
        d.reshape(-1)[rng.integers(0, d.size, 2 + d.size // 8)] = rng.integers(1, 200)
    else:
        c = dict(cfg, vec_corr="none", condition="none")
        p = ref.aperture(cfg) * np.exp(1j * rng.normal(size=(n, n)))
        d = ref.intensity(ref.hanser_psfa(c, p))
        d = np.rint(d / d.max() * 200 + rng.poisson(4, d.shape)).astype(int)
    ny, nx = n, n
    if rng.random() < 0.45:  # cameras are not square
        if rng.random() < 0.5:
            ny = max(2, n - int(rng.integers(1, 4)))
        else:
            nx = max(2, n - int(rng.integers(1, 4)))
    y0, x0 = (n - ny) // 2, (n - nx) // 2
    return np.minimum(d[:, y0:y0 + ny, x0:x0 + nx], 255)


def plain(x):
    """Nested plain lists of Python floats only."""
    if type(x) is list:
        return all(plain(v) for v in x)
    return type(x) is float


def check(case, rec):
    from pyotf.labview import labview
    from pyotf.phaseretrieval import retrieve_phase
    from pyotf.utils import prep_data_for_PR
    rng = np.random.default_rng(case["seed"])
    cfg = case["cfg"]
    d = stack(rng, cfg, case["data"])
    if d.max() <= 1.5 * np.bincount(d.ravel()).argmax():
        d = d.copy()
        d[0, 0, 0] = 255
    # from single photons to long integrations
    top = {"uint8": 1, "uint16": 250}.get(case["kind"], 20000)
    if rng.random() < 0.5:
        d = d * int(np.exp(rng.uniform(0, np.log(top)))) + int(rng.integers(0, 2)) * (top > 1)
    par = [cfg[k] for k in ("wl", "na", "ni", "res", "zres")]
    opts = dict(max_iters=int(rng.integers(1, 13)), pupil_tol=float(rng.choice([1e-8, 0, 10.0 ** rng.uniform(-4, 0)])),
                mse_tol=float(rng.choice([1e-8, 0, 10.0 ** rng.uniform(-4, 0)])), phase_only=bool(rng.random() < 0.5))
    defaults = dict(max_iters=200, pupil_tol=1e-8, mse_tol=1e-8, phase_only=False)
    kinds = dict(list=lambda: d.tolist(), array=lambda: d.copy(), uint8=lambda: d.astype("uint8"), uint16=lambda: d.astype("uint16"),
                 arrays=lambda: [p.copy() for p in d], tuple=lambda: tuple(tuple(map(tuple, p)) for p in d.tolist()))
    arg = kinds[case["kind"]]()
    keep = copy.deepcopy(arg)
    ready = prep_data_for_PR(np.asarray(copy.deepcopy(arg)))
    rec.shape(ready, (d.shape[0],) + (max(d.shape[1:]),) * 2, "prepared data")
    params = dict(zip(("wl", "na", "ni", "res", "zres"), par))

    if case["full"]:
        given = {}
        if rng.random() < 0.5:
            given["phase_only"] = True
        rec.ev("defaults")
    else:
        given = {k: v for k, v in opts.items() if rng.random() < 0.85 or k == "max_iters"}
    used = dict(defaults, **given)
    style = str(rng.choice(["positional", "keyword", "mixed"]))
    if style == "positional" and not case["full"]:
        used = dict(opts)
        got = labview(arg, *par, *[opts[k] for k in NAMES[5:]])
    elif style == "keyword":
        kw = dict(params, **given)
        got = labview(arg, **{k: kw[k] for k in rng.permutation(sorted(kw))})
    else:
        got = labview(arg, *par, **given)
    rec.ev(style)
    want = retrieve_phase(ready, dict(params), used["max_iters"], used["pupil_tol"], used["mse_tol"], used["phase_only"])
    rec.ok(plain(got), "the result is not made of plain lists and floats", got=type(got).__name__)
    n = max(d.shape[1:])
    rec.ok(len(got) == n and all(len(r) == n for r in got), "the result is not a square list of lists", want=n)
    rec.close(got, want.phase, "labview does not return the phase of the documented pipeline", rtol=1e-9, atol=1e-12, used=used)
    rec.ev("call")
    rec.tag(style=style, kind=case["kind"], data=case["data"], phase_only=used["phase_only"])
    if d.shape[1] != d.shape[2]:
        rec.ev("not_square")
    if used["phase_only"]:
        rec.ev("phase_only")
    if len(want.mse) < used["max_iters"]:
        rec.ev("stopped_early")
    same = case["kind"] in ("list", "tuple") and arg == keep or case["kind"] not in ("list", "tuple") and all(
        np.array_equal(a, b) and a.dtype == b.dtype for a, b in zip(arg, keep))
    rec.ok(same, "labview changes its input")
    rec.ev("unchanged")
    # how much the options of this case decide (otherwise equality would say little)
    for other in (dict(used, phase_only=not used["phase_only"]), dict(used, max_iters=used["max_iters"] + 3)):
        if not case["full"] and not np.allclose(retrieve_phase(ready, dict(params), **other).phase, want.phase, atol=1e-6):
            rec.ev("matters")
