"""C05: PSF models under random histories against freshly built models."""
import copy

import numpy as np

from .. import drv, gen, ref

ID = "C05"
RULE = ("random histories over a pool of live models of both kinds: valid and rejected assignments, reads of PSFa/PSFi/"
        "OTFa/OTFi in any order, applied pupils, aberrated copies, shallow and deep copies, caller-side mutation of z "
        "arrays; every read is compared with a model freshly built from the parameters the history implies; non-trivial "
        "when at least one read follows a change")
ASSUMPTIONS = ["same-value assignments (whether they drop an applied pupil or a custom z range is unspecified) and "
               "parameter combinations a constructor would reject are not generated",
               "equality to 1e-9 of the largest value"]
MIN_EVENTS = {"read": 1000, "assign": 500, "rejected": 100, "apply_pupil": 60, "copy": 60, "aberrate": 20}
CHUNK = 2
OUT = ("PSFa", "PSFi", "OTFa", "OTFi")


def cases(rng, tier):
    n = 900 if tier == "quick" else 12000
    for i in range(n):
        yield dict(seed=int(rng.integers(2**31)), steps=int(rng.choice([12, 25, 40])))
    for i in range(n // 60):
        # large grids or many planes
        yield dict(seed=int(rng.integers(2**31)), steps=12, big=True)


class Obj:
    """A live model with the state the history implies."""

    def __init__(self, kind, cfg, live, pupil=None):
        self.kind, self.cfg, self.live, self.pupil = kind, cfg, live, pupil

    def fork(self, live):
        return Obj(self.kind, copy.deepcopy(self.cfg), live, self.pupil)

    def fresh(self):
        m = drv.psf_model(self.kind, self.cfg)
        if self.pupil is not None:
            m.apply_pupil(self.pupil)
        return m


def new_cfg(rng, kind, big=False):
    if big and kind == "hanser":
        cfg = gen.hanser(rng, sizes=(40, 64, 65, 72) if rng.random() < 0.6 else (6, 7), zmode="zs", max_ratio=0.95)
        if cfg["size"] < 10:
            cfg["zsize"] = int(rng.integers(30, 140))
        return cfg
    if big:
        return gen.sheppard(rng, sizes=(8, 33, 40), zsizes=(9, 33, 40), ratio=(0.6, 0.95))
    if kind == "hanser":
        cfg = gen.hanser(rng, sizes=(4, 5, 6, 7, 8, 9, 11, 12), max_z=4, max_ratio=0.95)
        cfg.setdefault("zsize", cfg["size"])
        cfg.setdefault("zres", cfg["res"])
        return cfg
    return gen.sheppard(rng, sizes=(8, 9, 11, 12), zsizes=(8, 9, 11, 12), ratio=(0.6, 0.95))


def valid(kind, cfg):
    if not (0 < cfg["na"] < 0.97 * cfg["ni"]) or cfg["res"] >= 0.98 * cfg["wl"] / 2 / cfg["na"]:
        return False
    if kind == "sheppard" and cfg["zres"] >= 0.98 * cfg["wl"] / 2 / cfg["ni"]:
        return False
    return gen.edge_clear(cfg)


def mutate(rng, o):
    """A valid change of one parameter: (name, value) or None."""
    cfg, kind = o.cfg, o.kind
    names = ["wl", "na", "ni", "res", "size", "zres", "zsize", "vec_corr", "condition"]
    names.append("zrange" if kind == "hanser" else "dual")
    name = str(rng.choice(names))
    if name in ("wl", "na", "ni", "res", "zres"):
        v = cfg[name] * float(rng.choice([rng.uniform(0.8, 1.25), rng.uniform(0.999, 1.001), 1 + 1e-6]))
    elif name == "size":
        v = int(rng.integers(4, 13) if kind == "hanser" else rng.integers(8, 14))
    elif name == "zsize":
        v = int(rng.integers(1, 9) if kind == "hanser" else rng.integers(8, 14))
    elif name == "vec_corr":
        v = str(rng.choice(gen.VEC))
    elif name == "condition":
        v = str(rng.choice(gen.COND))
    elif name == "dual":
        v = not cfg["dual"]
    else:
        v = [float(z) for z in rng.uniform(-2, 2, int(rng.integers(1, 5))) * cfg["wl"]]
        if rng.random() < 0.6:
            # a variation of the present planes
            z = cfg.get("zrange")
            z = [float(t) for t in (ref.zvalues(cfg) if z is None else np.atleast_1d(z))]
            i = int(rng.integers(len(z)))
            v = [[t + cfg["wl"] * 0.01 for t in z], z[:i] + [z[i] + cfg["wl"] * float(rng.choice([0.3, 1e-6]))] + z[i + 1:], z[::-1],
                 [-t for t in z], z[i:] + z[:i], z[:-1] or z, z + [z[0]], [t * 1.5 for t in z]][int(rng.integers(8))]
    if v == cfg.get(name) or name == "zrange" and np.array_equal(v, np.atleast_1d(ref.zvalues(cfg))):
        return None
    c = dict(cfg, **{name: v})
    if name in ("zsize", "zres"):
        c.pop("zrange", None)
    return (name, v, c) if valid(kind, c) else None


def bad_assignment(rng, o):
    cfg = o.cfg
    abbe = cfg["wl"] / 2 / cfg["na"]
    opts = [("wl", "500"), ("wl", -1.0), ("wl", None), ("na", -0.1), ("na", "x"), ("na", [1.0]), ("ni", -1), ("ni", 1j),
            ("size", -4), ("size", 8.0), ("size", "8"), ("zsize", -1), ("zsize", 3.0), ("res", 0), ("res", -cfg["res"]),
            ("res", abbe * (1 + 1e-9)), ("res", abbe * 1.5), ("res", "a"), ("zres", 0), ("zres", -cfg["zres"]), ("zres", "a"),
            ("vec_corr", "w"), ("vec_corr", "X"), ("vec_corr", None), ("condition", "abbe"), ("condition", "Sine"),
            ("condition", 1)]
    if o.kind == "sheppard":
        zl = cfg["wl"] / 2 / cfg["ni"]
        opts += [("zres", zl * (1 + 1e-9)), ("zres", zl * 2), ("dual", 1), ("dual", "yes"), ("dual", None)] * 2
    return opts[int(rng.integers(len(opts)))]


def compare(rec, o, names, what):
    f = o.fresh()
    for name in names:
        rec.close(getattr(o.live, name), getattr(f, name), f"{what}: {o.kind} {name} is not that of a fresh model")
        rec.ev("read")


def check(case, rec):
    import pyotf.otf as otf
    rng = np.random.default_rng(case["seed"])
    pool = []
    for kind in ("hanser", "sheppard", str(rng.choice(["hanser", "sheppard"]))):
        cfg = new_cfg(rng, kind, case.get("big", False))
        pool.append(Obj(kind, cfg, drv.psf_model(kind, cfg)))
    arrays = []
    trace = []
    changed = False
    for step in range(case["steps"]):
        o = pool[int(rng.integers(len(pool)))]
        op = rng.random()
        if op < 0.35:
            mv = mutate(rng, o)
            if mv is None:
                continue
            name, v, cfg = mv
            if name == "zrange":
                arr = np.array(v)
                arrays.append(arr)
                o.live.zrange = arr if rng.random() < 0.7 else v
            else:
                setattr(o.live, name, v)
            o.cfg, o.pupil = cfg, None
            trace.append(f"{name}={v}")
            rec.ev("assign")
            rec.tag(assign=f"{o.kind}.{name}")
            changed = True
        elif op < 0.45:
            name, v = bad_assignment(rng, o)
            try:
                setattr(o.live, name, v)
            except Exception:
                rec.ev("rejected")
            else:
                rec.ok(False, "invalid assignment was accepted", name=name, value=v, model=o.kind)
            trace.append(f"rejected {name}={v}")
        elif op < 0.75:
            names = [str(x) for x in rng.permutation(OUT)[: int(rng.integers(1, 5))]]
            trace.append(f"read {names}")
            compare(rec, o, names, "after " + "; ".join(trace[-6:]))
        elif op < 0.85 and o.kind == "hanser":
            p = drv.rand_pupil(rng, o.cfg, str(rng.choice(drv.PUPILS)))
            q = p.copy()
            o.live.apply_pupil(q)
            q[...] = 7  # the caller reuses its array
            o.pupil = p
            trace.append("apply_pupil")
            rec.ev("apply_pupil")
        elif op < 0.88 and o.kind == "hanser":
            n = int(rng.integers(2, 12))
            mc = rng.normal(size=n) * 0.1 if rng.random() < 0.5 else None
            pc = rng.normal(size=n)
            ab = otf.apply_aberration(o.live, mc, pc)
            z = ref.zernike_stack(o.cfg, n)
            mag = ref.aperture(o.cfg) + (0 if mc is None else np.tensordot(mc, z, 1))
            new = o.fork(ab)
            new.pupil = mag * np.exp(1j * np.tensordot(pc, z, 1))
            if len(pool) < 6:
                pool.append(new)
            compare(rec, new, ["PSFi"], "aberrated copy")
            trace.append("apply_aberration")
            rec.ev("aberrate")
        elif op < 0.95:
            new = o.fork((copy.copy if rng.random() < 0.5 else copy.deepcopy)(o.live))
            if len(pool) < 6:
                pool.append(new)
            else:
                pool[int(rng.integers(len(pool)))] = new
            trace.append("copy")
            rec.ev("copy")
        elif arrays:
            arrays[int(rng.integers(len(arrays)))][...] = 0.123
            trace.append("caller mutates its z array")
            rec.ev("caller_mutation")
    for o in pool:
        compare(rec, o, OUT, "at the end of " + "; ".join(trace[-8:]))
        for k, v in o.cfg.items():
            if k == "zrange":
                rec.close(o.live.zrange, np.atleast_1d(np.asarray(v, float)), "zrange differs from the assigned one")
            else:
                rec.ok(getattr(o.live, k) == v, f"parameter {k} is not the current one", got=getattr(o.live, k), want=v)
    rec.nontrivial = rec.nontrivial and changed
