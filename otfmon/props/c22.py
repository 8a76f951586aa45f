"""C22: microscopes under random histories of setting changes against newly built ones."""
import copy

import numpy as np

from .. import gen

ID = "C22"
RULE = ("random histories over a pool of microscopes (all classes, both PSF models): valid, repeated and rejected assignments of "
        "every own setting, reads of PSF, OTF and full grid PSF in any order, deep copies; every read is compared with a microscope "
        "newly built from the settings the history implies; non-trivial when a read follows a change")
ASSUMPTIONS = ["settings of the PSF model inside (m.model.*) and in-place changes of a caller's orientation list are not own settings",
               "assigning oversample_factor is a known finding and kept out of the histories, except for rejected values"]
MIN_EVENTS = {"read": 900, "assign": 500, "rejected": 120, "copy": 30, "read_after_change": 300}
CHUNK = 2
KNOWN = "assigning oversample_factor after construction bins the PSF of the old grid instead of rebuilding it (and accepts even values)"


def cases(rng, tier):
    for i in range(220 if tier == "quick" else 4000):
        yield dict(seed=int(rng.integers(2**31)), steps=int(rng.choice([12, 20, 30])))
    yield dict(finding=True)


class Obj:
    def __init__(self, cls, cfg, live):
        self.cls, self.cfg, self.live = cls, cfg, live
        self.dirty = False


def build(cls, cfg):
    import pyotf.microscope as mic
    kw = dict(cfg)
    if "orientations" in kw:
        kw["orientations"] = tuple(kw["orientations"])
    if "SIM" in cls and "coherent" in kw:
        # flags changed after construction: the general class takes them
        return mic.BaseSIMMicroscope(**kw)
    return getattr(mic, cls)(**kw)


def new(rng, cls):
    while True:
        cfg = gen.micro(rng, cls, sizes=(6, 7, 8, 9), os=(1, 1, 3), planes=0.15)
        if cfg.get("zsize", cfg["size"]) <= 9:
            return cfg


FLAGS = {"SIM2DMicroscope": (False, False), "SIM3DMicroscope": (False, True), "LatticeSIMMicroscope": (True, True)}


def settings(cls):
    if cls == "ConfocalMicroscope":
        return ("pinhole_size", "wl_exc")
    if "SIM" in cls:
        return ("na_exc", "wl_exc", "coherent", "dc", "dc_suppress", "wiener", "orientations")
    return ()


def change(rng, o):
    c = o.cfg
    name = str(rng.choice(settings(o.cls)))
    if name == "pinhole_size":
        v = [0, 1, 2, 0.0, float(rng.uniform(0, 3)), c[name] * (1 + 1e-6)][int(rng.integers(6))]
    elif name == "wl_exc" and o.cls == "ConfocalMicroscope":
        v = c["wl"] * float(rng.uniform(0.9, 1.2))
        f = c["oversample_factor"]
        if c["pixel_size"] / f >= 0.98 * v / 2 / c["na"]:
            return None
        if c["model"].lower() == "sheppard" and c.get("zres", c["pixel_size"]) >= 0.98 * v / 2 / c["ni"]:
            return None
    elif name == "wl_exc":
        v = c["wl"] * float(rng.uniform(0.6, 1.4))
    elif name == "na_exc":
        v = c["na"] * float(rng.uniform(0.1, 1))
    elif name in ("coherent", "dc", "dc_suppress"):
        v = bool(rng.random() < 0.5)
    elif name == "wiener":
        v = [None, 0.1, 0.5, 1, float(rng.uniform(0.01, 2))][int(rng.integers(5))]
    else:
        v = [float(a) for a in rng.uniform(-3, 3, int(rng.integers(1, 5)))]
    return name, v


def bad(rng, o):
    opts = [("oversample_factor", -1), ("oversample_factor", 1.0), ("oversample_factor", "3"), ("oversample_factor", None)]
    if o.cls == "ConfocalMicroscope":
        opts += [("pinhole_size", -0.5), ("pinhole_size", "1"), ("pinhole_size", None), ("wl_exc", -5.0), ("wl_exc", "x"), ("wl_exc", None)]
    if "SIM" in o.cls:
        opts += [("na_exc", -0.1), ("na_exc", "x"), ("na_exc", None), ("wl_exc", -1), ("wl_exc", None), ("coherent", 1), ("dc", 0),
                 ("dc", None), ("dc_suppress", "yes"), ("wiener", -0.1), ("wiener", -3), ("wiener", "a")]
    return opts[int(rng.integers(len(opts)))]


def finding(rec):
    cfg = dict(model="hanser", wl=520.0, na=0.8, ni=1.0, size=8, pixel_size=130.0, oversample_factor=3)
    m = build("WidefieldMicroscope", cfg)
    m.PSF
    try:
        m.oversample_factor = 1
    except Exception:
        return  # refusing the change would be fine
    want = build("WidefieldMicroscope", dict(cfg, oversample_factor=1)).PSF
    if m.PSF.shape != want.shape or not np.allclose(m.PSF, want, rtol=1e-9):
        rec.finding("oversample_assign", KNOWN)


def check(case, rec):
    if case.get("finding"):
        finding(rec)
        return
    rng = np.random.default_rng(case["seed"])
    classes = [str(c) for c in rng.choice(["ConfocalMicroscope", "SIM2DMicroscope", "SIM3DMicroscope", "LatticeSIMMicroscope"], 3)]
    classes.append(str(rng.choice(gen.MICROS)))
    pool = []
    base = None
    for cls in classes:
        cfg = new(rng, cls)
        if base is not None and rng.random() < 0.4:
            # two microscopes sharing the optics
            for k in ("model", "wl", "na", "ni", "size", "pixel_size", "oversample_factor", "zsize", "zres", "zrange", "vec_corr", "condition", "dual"):
                cfg.pop(k, None)
                if k in base:
                    cfg[k] = base[k]
            if cfg.get("na_exc") is not None:
                cfg["na_exc"] = cfg["na"] * 0.8
            if cfg.get("wl_exc") is not None:
                cfg["wl_exc"] = cfg["wl"]
        base = cfg
        pool.append(Obj(cls, cfg, build(cls, cfg)))
    trace = []
    reads = ("PSF", "OTF", "model_psf")

    def compare(o, names, what):
        f = build(o.cls, o.cfg)
        for name in names:
            got, want = getattr(o.live, name), getattr(f, name)
            s = np.abs(want).max()
            if name == "PSF":
                # unit sum may be lost in cancellation
                if not s < 1e4:
                    continue
            elif name == "OTF" and not np.abs(f.PSF).max() < 1e4:
                continue
            rec.close(got, want, f"{what}: {o.cls} {name} is not that of a new microscope", rtol=1e-8)
            rec.ev("read")
            if o.dirty:
                rec.ev("read_after_change")

    for step in range(case["steps"]):
        o = pool[int(rng.integers(len(pool)))]
        op = rng.random()
        if op < 0.4 and settings(o.cls):
            nv = change(rng, o)
            if nv is None:
                continue
            name, v = nv
            if rng.random() < 0.1 and o.cfg.get(name) is not None:
                v = o.cfg[name]  # same value again
            setattr(o.live, name, tuple(v) if name == "orientations" else v)
            if name in ("coherent", "dc") and "coherent" not in o.cfg:
                coherent, dc = FLAGS[o.cls]
                o.cfg = dict(o.cfg, coherent=coherent, dc=dc)
                o.cfg.setdefault("orientations", [0, float(np.pi / 2)])
            if name == "orientations" and o.cls.startswith("Lattice") and "coherent" not in o.cfg:
                o.cfg = dict(o.cfg, coherent=True, dc=True)
            o.cfg = dict(o.cfg, **{name: v})
            o.dirty = True
            trace.append(f"{o.cls}.{name}={v}")
            rec.ev("assign")
            rec.tag(assign=f"{o.cls}.{name}")
        elif op < 0.52:
            name, v = bad(rng, o)
            rec.raises(lambda: setattr(o.live, name, v), f"invalid {name}={v!r} assigned to {o.cls}")
            trace.append(f"rejected {name}={v!r}")
            rec.ev("rejected")
        elif op < 0.56:
            n = Obj(o.cls, dict(o.cfg), copy.deepcopy(o.live))
            n.dirty = o.dirty
            if len(pool) < 6:
                pool.append(n)
            trace.append("deepcopy")
            rec.ev("copy")
        else:
            names = [str(x) for x in rng.permutation(reads)[: int(rng.integers(1, 4))]]
            trace.append(f"read {names}")
            compare(o, names, "after " + "; ".join(trace[-6:]))
    for o in pool:
        compare(o, reads, "at the end of " + "; ".join(trace[-8:]))
        for name in settings(o.cls):
            if o.cfg.get(name) is not None:
                got = getattr(o.live, name)
                same = tuple(got) == tuple(o.cfg[name]) if name == "orientations" else got == o.cfg[name]
                rec.ok(same, f"{o.cls}.{name} is not the current setting", got=got, want=o.cfg[name])
    rec.nontrivial = rec.nontrivial and any(o.dirty for o in pool)
