"""C30: settings read back as given, documented defaults, representations."""
import numpy as np

from .. import drv, gen
from . import c05, c22

ID = "C30"
RULE = ("models and microscopes of every class built with random subsets of the optional settings left out, by keyword in any order and "
        "by position, then changed; every setting is read back, omitted ones are compared with the documented defaults (value, and "
        "results of an object built with the defaults spelled out), and the printed representation is evaluated with recording "
        "constructors and compared with the current settings; non-trivial when something was left out or changed")
ASSUMPTIONS = ["order, spacing and extra entries of a representation are free, it only has to be a constructor call with the current settings",
               "arrays are printed with the print options of the user (here: all digits)", "own settings of microscopes only (not those of the inner model)"]
MIN_EVENTS = {"readback": 3000, "default": 500, "default_result": 150, "repr": 400, "assign": 300, "positional": 60, "rebuilt": 150, "no_planes": 2}
CHUNK = 4
MODEL = ("wl", "na", "ni", "res", "size", "zres", "zsize", "vec_corr", "condition")


def cases(rng, tier):
    k = 1 if tier == "quick" else 20
    s = lambda: int(rng.integers(2**31))  # noqa: E731
    for i in range(200 * k):
        yield dict(what="model", seed=s())
    for i in range(30 * k):
        for cls in gen.MICROS:
            yield dict(what="micro", cls=cls, seed=s())


def same(a, b, text=False):
    if isinstance(b, (list, tuple, np.ndarray)):
        a, b = np.asarray(a), np.asarray(b)
        s = np.abs(b).max() if b.size else 0
        return a.shape == b.shape and (np.abs(a - b) <= (2e-8 * s if text else 0)).all()
    return type(a) is type(b) and a == b or isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(
        a, bool) and not isinstance(b, bool) and a == b


def parse(rec, obj, cls):
    """Keyword arguments of the constructor call the object prints."""
    names = dict(vars(np))
    names["__builtins__"] = {"True": True, "False": False, "None": None}
    names[cls] = lambda **kw: kw
    with np.printoptions(precision=17, threshold=10**6, floatmode="unique"):
        text = repr(obj)
    rec.ev("repr")
    try:
        got = eval(text, names)
    except Exception as e:
        rec.ok(False, f"the representation of a {cls} is not a constructor call", text=text, error=repr(e))
    rec.ok(isinstance(got, dict), f"the representation of a {cls} is not a constructor call of its class", text=text)
    return got, text


def model(case, rec, rng):
    kind = "hanser" if rng.random() < 0.6 else "sheppard"
    cls = "HanserPSF" if kind == "hanser" else "SheppardPSF"
    full = c05.new_cfg(rng, kind)
    if kind == "hanser" and rng.random() < 0.5:
        full.pop("zrange", None)
    given = dict(full)
    for k in ("zres", "zsize", "vec_corr", "condition", "dual"):
        if k in given and rng.random() < 0.5:
            del given[k]
    want = dict(given)
    want.setdefault("zres", given["res"])
    want.setdefault("zsize", given["size"])
    want.setdefault("vec_corr", "none")
    want.setdefault("condition", "sine")
    if kind == "sheppard":
        want.setdefault("dual", False)
        if want["zres"] >= 0.98 * want["wl"] / 2 / want["ni"]:
            given["zres"] = want["zres"] = full["zres"]
    import pyotf.otf as otf
    build = getattr(otf, cls)
    if rng.random() < 0.4:
        # the first ones by position
        n = int(rng.integers(1, len(MODEL) + 1))
        while not all(k in given for k in MODEL[:n]):
            n -= 1
        args = [given[k] for k in MODEL[:n]]
        kw = {k: v for k, v in given.items() if k not in MODEL[:n]}
        rec.ev("positional")
    else:
        args, kw = [], dict(given)
    kw = {k: kw[k] for k in rng.permutation(sorted(kw))}
    m = build(*args, **kw)
    omitted = [k for k in want if k not in given]

    def readback(m, what):
        for k, v in want.items():
            if k == "zrange":
                rec.ok(same(m.zrange, np.atleast_1d(np.asarray(v, float))), f"{what}: zrange does not read back", got=m.zrange, want=v)
            else:
                rec.ok(same(getattr(m, k), v), f"{what}: {k} does not read back", got=getattr(m, k), want=v, omitted=omitted)
            rec.ev("default" if k in omitted else "readback")
        if kind == "hanser" and want.get("zrange") is None:
            z = (np.arange(want["zsize"]) - want["zsize"] // 2) * want["zres"]
            rec.close(m.zrange, z, f"{what}: wrong default planes", scale=max(np.abs(z).max(), 1e-300))
            rec.ev("default")

    def printed(m):
        got, text = parse(rec, m, cls)
        for k, v in want.items():
            if k == "zrange":
                v = np.atleast_1d(np.asarray(v, float))
            rec.ok(k in got and same(got[k], v, True), f"the representation of a {cls} does not show the current {k}", text=text, want=v)
        if kind == "hanser":
            rec.ok("zrange" not in got or same(got["zrange"], m.zrange, True), "the representation shows other planes", text=text)
        rec.ev("rebuilt")
        b = build(**got)
        for k in MODEL:
            rec.ok(same(getattr(b, k), getattr(m, k)), f"evaluating the representation of a {cls} gives another {k}", text=text)

    readback(m, "new model")
    if omitted:
        explicit = build(**want)
        name = str(rng.choice(c05.OUT))
        rec.close(getattr(m, name), getattr(explicit, name), "defaults left out and spelled out give different results", omitted=omitted)
        rec.ev("default_result")
    printed(m)
    if kind == "hanser" and "zrange" not in want and rng.random() < 0.15:
        # no planes at all is not an omitted number of planes
        m0 = build(**dict(given, zsize=0))
        rec.ok(m0.zsize == 0 and len(m0.zrange) == 0, "zsize=0 does not read back", got=m0.zsize)
        rec.ev("no_planes")
    o = c05.Obj(kind, want, m)
    for _ in range(3):
        mv = c05.mutate(rng, o)
        if mv is None:
            continue
        name, v, cfg = mv
        setattr(m, name, np.array(v) if name == "zrange" else v)
        o.cfg = want = cfg
        rec.ev("assign")
        omitted = []
        readback(m, f"after {name}={v}")
        if rng.random() < 0.5:
            getattr(m, str(rng.choice(c05.OUT)))
            readback(m, f"after {name}={v} and a read")
        printed(m)


def micro(case, rec, rng):
    import pyotf.microscope as mic
    cls = case["cls"]
    full = c22.new(rng, cls)
    given = dict(full)
    shep = full["model"].lower() == "sheppard"
    for k in ("vec_corr", "condition", "dual"):
        if rng.random() < 0.5:
            given.pop(k, None)
    if rng.random() < 0.5:
        given.pop("zsize", None)
    if rng.random() < 0.5 and not (shep and given["pixel_size"] >= 0.97 * given["wl"] / 2 / given["ni"]):
        given.pop("zres", None)
    if "orientations" in given and rng.random() < 0.4:
        given["orientations"] = [list, np.array, tuple][int(rng.integers(3))](given["orientations"])
    kw = {k: given[k] for k in rng.permutation(sorted(given))}
    m = getattr(mic, cls)(**kw)
    want = dict(given)
    if "SIM" in cls:
        want["coherent"], want["dc"] = c22.FLAGS[cls]
        want.setdefault("orientations", [0, float(np.pi / 2)])
        for a in ("na", "wl"):
            if want[a + "_exc"] is None:
                want[a + "_exc"] = want[a]
                rec.ok(getattr(m, a + "_exc") == want[a], f"{cls}: an omitted {a}_exc is not that of the detection")
                rec.ev("default")
    defaults = dict(zres=given["pixel_size"], zsize=given["size"], vec_corr="none", condition="sine", **(dict(dual=False) if shep else {}))
    inner = dict(defaults, **{k: given[k] for k in ("wl", "na", "ni", *defaults) if k in given})
    f = given["oversample_factor"]
    inner.update(size=given["size"] * f, res=given["pixel_size"] / f)
    for k, v in inner.items():
        rec.ok(getattr(m.model, k) == v or k == "res" and abs(m.model.res / v - 1) < 1e-12, f"the model of a {cls} has another {k}",
               got=getattr(m.model, k), want=v)
        rec.ev("readback" if k in given else "default")
    rec.ok(type(m.model).__name__.lower() == given["model"].lower() + "psf", f"a {cls} uses another model", got=type(m.model).__name__)
    own = ("oversample_factor", "pixel_size") + c22.settings(cls)

    def readback(what):
        for k in own:
            rec.ok(same(getattr(m, k), want[k]), f"{what}: {k} of a {cls} does not read back", got=getattr(m, k), want=want[k])
            rec.ev("readback")

    def printed():
        got, text = parse(rec, m, cls)
        for k in given.keys() | set(own):
            v = want[k]
            if k == "model":
                ok = str(got.get(k)).lower() == v.lower()
            else:
                ok = k in got and same(got[k], v, True)
            rec.ok(ok, f"the representation of a {cls} does not show the current {k}", text=text, want=v)
        if "SIM" not in cls:
            rec.ev("rebuilt")
            b = getattr(mic, cls)(**got)
            rec.close(b.PSF, m.PSF, f"evaluating the representation of a {cls} gives another microscope", text=text)

    readback("new microscope")
    if len(given) < len(full) or "SIM" in cls:
        explicit = dict(given, **{k: v for k, v in defaults.items() if k not in given})
        for a in ("na_exc", "wl_exc"):
            if a in given:
                explicit[a] = want[a]
        b = getattr(mic, cls)(**explicit)
        rec.close(m.OTF, b.OTF, f"{cls}: defaults left out and spelled out give different results", rtol=1e-8)
        rec.ev("default_result")
    printed()
    if not c22.settings(cls):
        return
    o = c22.Obj(cls, want, m)
    for _ in range(3):
        nv = c22.change(rng, o)
        if nv is None:
            continue
        name, v = nv
        setattr(m, name, tuple(v) if name == "orientations" else v)
        o.cfg = want = dict(want, **{name: v})
        rec.ev("assign")
        readback(f"after {name}={v}")
        if rng.random() < 0.3:
            m.PSF
            readback(f"after {name}={v} and a read")
        printed()


def check(case, rec):
    rng = np.random.default_rng(case["seed"])
    rec.tag(what=case.get("cls", case["what"]))
    dict(model=model, micro=micro)[case["what"]](case, rec, rng)
    rec.nontrivial = True
