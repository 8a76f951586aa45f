"""C16: data preparation subtracts the background, clips, and pads or crops as asked."""
import numpy as np

ID = "C16"
RULE = ("random stacks with background of every integer type (also big-endian and boolean) (also near the limits of the type), odd, even and non-square "
        "shapes, sizes from 1 to beyond the data (omitted, padded, cropped, one dimension padded and the other cropped), "
        "integer, float, zero and large multipliers; non-trivial when data remain after subtraction")
ASSUMPTIONS = ["most common value: the smallest of the most frequent ones",
               "when several voxels share the maximum any of them may be the centred one"]
MIN_EVENTS = {"remove_bg": 300, "same": 30, "padded": 80, "cropped": 80, "mixed": 32, "centred_max": 80}
CHUNK = 10
DTYPES = ("uint8", "uint16", "uint16", "int16", "int32", "uint32", "int64", "int8",
          "uint64", ">u2", ">i4", "bool")


def cases(rng, tier):
    for rep in range(1500 if tier == "quick" else 15000):
        nz, ny, nx = (int(v) for v in (rng.integers(1, 8), rng.integers(1, 20), rng.integers(1, 20)))
        if rng.random() < 0.04:
            nz, ny, nx = (int(v) for v in (rng.integers(1, 40), rng.integers(20, 140), rng.integers(20, 140)))
        if rng.random() < 0.3:
            nx = ny
        lo, hi = min(ny, nx), max(ny, nx)
        k = rng.random()
        if k < 0.15:
            s = None
        elif k < 0.25:
            s = hi
        elif k < 0.45:
            s = hi + int(rng.integers(1, 12))
        elif k < 0.8 or lo == hi:
            s = int(rng.integers(1, lo + 1))
        else:
            s = int(rng.integers(lo, hi + 1))
        m = [1.5, 1.5, 1.1, 0, 1, 2, 3, 0.0, 7, 1000, 0.37][int(rng.integers(11))]
        yield dict(shape=[nz, ny, nx], xysize=s, multiplier=m, dtype=str(rng.choice(DTYPES)), call=int(rng.integers(3)),
                   kind=str(rng.choice(["spots", "spots", "dense", "ties", "flat", "edge"])), seed=int(rng.integers(2**31)))

    # camera sized stacks whose background is not spread evenly
    for shape, kind in (([20, 120, 121], "columns"), ([30, 100, 100], "planes"), ([3, 400, 300], "every_other"), ([9, 150, 150], "corner"),
                        ([2, 700, 600], "columns"), ([60, 64, 64], "every_other")):
        yield dict(shape=shape, xysize=None if rng.random() < 0.5 else int(rng.integers(20, 200)), multiplier=[1.5, 1.1, 1][int(rng.integers(3))],
                   dtype=str(rng.choice(["uint8", "uint16", "int32", "int64"])), call=int(rng.integers(3)), kind=kind, seed=int(rng.integers(2**31)))


def make(rng, shape, dtype, kind):
    info = 1 if dtype == "bool" else np.iinfo(dtype).max
    top = int(min(info, 200000 if rng.random() < 0.3 else 70000))
    bg = int(rng.integers(0, max(2, top // 2)))
    if rng.random() < 0.3:
        bg = int(rng.integers(0, 3))
    d = np.full(shape, bg, np.int64)
    if kind == "dense":
        d = rng.integers(0, top + 1, shape)
        d.reshape(-1)[rng.random(d.size) < 0.2] = bg
    elif kind in ("columns", "planes", "every_other", "corner"):
        # some regions hold only background, the others another narrow level
        where = np.zeros(shape, bool)
        if kind == "columns":
            where[..., 1::2] = True
        elif kind == "planes":
            where[1::2] = True
        elif kind == "every_other":
            where.reshape(-1)[int(rng.integers(2))::2] = True
        else:
            where[:, shape[1] // 3:, shape[2] // 3:] = True
        lo = int(rng.integers(2, 100))
        d = np.where(where, lo, rng.integers(lo + 3, lo + 9, shape))
    elif kind == "ties":
        d = rng.integers(0, 4, shape) * (top // 4)
    elif kind != "flat":
        k = max(1, d.size // 4)
        d.reshape(-1)[rng.integers(0, d.size, k)] = rng.integers(0, top + 1, k)
        if kind == "edge":
            d[tuple(int(rng.choice([0, n - 1])) for n in shape)] = top
        else:
            d[tuple(int(rng.integers(n)) for n in shape)] = top
    return d.astype(dtype)


def check(case, rec):
    from pyotf.utils import prep_data_for_PR, remove_bg
    rng = np.random.default_rng(case["seed"])
    shape, s, m = case["shape"], case["xysize"], case["multiplier"]
    data = make(rng, shape, case["dtype"], case["kind"])
    keep = data.copy()
    counts = dict(zip(*(v.tolist() for v in np.unique(data, return_counts=True))))
    top = max(counts.values())
    mode = min(v for v, c in counts.items() if c == top)
    sub = data.astype(float) - float(m) * mode
    rec.tag(dtype=case["dtype"], kind=case["kind"], multiplier=m)
    scale = max(1.0, float(np.abs(sub).max()))

    # the subtraction itself, for any dimension
    rec.close(remove_bg(data, m), sub, "remove_bg: data minus multiplier times the mode", rtol=1e-12, scale=scale)
    rec.close(remove_bg(data.reshape(-1), m), sub.reshape(-1), "remove_bg of flat data", rtol=1e-12, scale=scale)
    if m == 1.5:
        rec.close(remove_bg(data), sub, "remove_bg with the default multiplier", rtol=1e-12, scale=scale)
    rec.ev("remove_bg")

    if m == 1.5 and case["call"] == 0:
        out = prep_data_for_PR(data, s) if s is not None else prep_data_for_PR(data)
    elif case["call"] == 1:
        out = prep_data_for_PR(data, s, m)
    else:
        out = prep_data_for_PR(data, multiplier=m, xysize=s)
    rec.ok(np.array_equal(data, keep), "the input was modified")
    rec.ok(not np.shares_memory(out, data), "the result shares memory with the input")
    nz, ny, nx = shape
    size = max(ny, nx) if s is None else s
    rec.shape(out, (nz, size, size), "prepared data")
    rec.ok(np.isfinite(out).all() and out.min() >= 0, "prepared data are negative or not finite", min=out.min())
    rec.nontrivial = bool(sub.max() > 0)
    want = np.maximum(sub, 0)
    if size == ny == nx:
        rec.close(out, want, "background subtracted and clipped", rtol=1e-12, scale=scale)
        rec.ev("same")
    elif size >= max(ny, nx):
        # kept whole, centred within one pixel on both axes, zeros around
        found = False
        for y in {(size - ny) // 2, (size - ny + 1) // 2}:
            for x in {(size - nx) // 2, (size - nx + 1) // 2}:
                full = np.zeros((nz, size, size))
                full[:, y:y + ny, x:x + nx] = want
                found = found or np.abs(out - full).max() <= 1e-12 * scale
        rec.ok(found, "padded data are not the image centred to within one pixel among zeros", size=size, shape=shape)
        rec.ev("padded")
    else:
        py, px = max(ny, size), max(nx, size)
        full = np.zeros((nz, py, px))
        full[:, :ny, :nx] = sub
        rec.ev("mixed" if (py, px) != (ny, nx) else "cropped")
        if sub.max() <= 0:
            rec.ok(not out.any(), "nothing remains after subtraction but the result is not zero")
            return
        c = nz // 2, size // 2, size // 2
        rec.close(out[c], sub.max(), "the brightest voxel is not at the centre sample", rtol=1e-12)
        rec.ev("centred_max")
        found = False
        # where the zeros are put does not matter after the cyclic shift
        for z, y, x in np.argwhere(sub == sub.max())[:200]:
            r = np.roll(full, (nz // 2 - z, py // 2 - y, px // 2 - x), (0, 1, 2))
            r = r[:, py // 2 - size // 2:, px // 2 - size // 2:][:, :size, :size]
            found = found or np.abs(out - np.maximum(r, 0)).max() <= 1e-12 * scale
            if found:
                break
        rec.ok(found, "cropped data are not the cyclically shifted data around the maximum", size=size, shape=shape)
