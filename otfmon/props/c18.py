"""C18: padding, cropping, slicing, centring and binning conserve and place data exactly."""
import numpy as np

from .c17 import DTYPES, make

ID = "C18"
RULE = ("random arrays of one to four dimensions and eight types: fft_pad to larger, smaller, mixed, scalar, partial (None) and "
        "default shapes in several padding modes, slice_maker windows inside, across and outside every border, center_data with "
        "unique and repeated maxima, bin_ndarray by bin size (scalar, per axis) and by shape, sum and mean; expected results "
        "written sample by sample")
ASSUMPTIONS = ["padding is split between both ends to within one sample (either parity convention accepted)"]
MIN_EVENTS = {"pad": 300, "crop_back": 150, "fast_length": 82, "slice": 600, "centre": 165, "bin": 275, "remainder": 60, "pad_options": 100, "undivided": 100}
CHUNK = 20


def cases(rng, tier):
    k = 1 if tier == "quick" else 25
    for what, count in (("pad", 500), ("fast", 150), ("slice", 300), ("centre", 300), ("bin", 500)):
        for _ in range(count * k):
            nd = int(rng.integers(1, 5)) if rng.random() < 0.96 else int(rng.integers(5, 7))
            shape = [int(v) for v in rng.integers(1, {1: 90, 2: 25, 3: 11, 4: 7}.get(nd, 5), nd)]
            yield dict(what=what, shape=shape, dtype=str(rng.choice(DTYPES)), seed=int(rng.integers(2**31)),
                       layout=str(rng.choice(["c", "c", "f", "view"])))
    # hundreds of thousands of samples
    for what, shape in (("pad", [400000]), ("fast", [300007]), ("centre", [900, 700]), ("bin", [60, 130, 140]), ("bin", [700001]),
                        ("pad", [40, 150, 140]), ("centre", [500000])):
        yield dict(what=what, shape=shape, dtype=str(rng.choice(["float64", "int16", "uint8"])), seed=int(rng.integers(2**31)), layout="c")


def fast_len(n):
    while True:
        m = n
        for p in (2, 3, 5):
            while m % p == 0:
                m //= p
        if m == 1:
            return n
        n += 1


def placements(out, a, new):
    """Every way in which `out` holds `a` padded/cropped symmetrically to within one sample (contents may leave several)."""
    options = []
    for o, n in zip(a.shape, new):
        w = n - o
        options.append({w // 2, -((-w) // 2)})
    import itertools
    for off in itertools.product(*options):
        src = tuple(slice(max(0, -k), max(0, -k) + min(o, n)) for k, o, n in zip(off, a.shape, new))
        dst = tuple(slice(max(0, k), max(0, k) + min(o, n)) for k, o, n in zip(off, a.shape, new))
        if np.array_equal(out[dst], a[src]):
            mask = np.ones(new, bool)
            mask[dst] = False
            yield off, mask


def check(case, rec):
    from pyotf.utils import bin_ndarray, center_data, fft_pad, slice_maker
    rng = np.random.default_rng(case["seed"])
    what, shape = case["what"], tuple(case["shape"])
    a = make(rng, shape, case["dtype"], case["layout"])
    keep = a.copy()
    nd = a.ndim
    rec.tag(what=what, nd=nd, dtype=case["dtype"])
    rec.nontrivial = a.size > 1

    if what in ("pad", "fast"):
        mode = str(rng.choice(["constant", "edge", "wrap", "median", "reflect"]))
        if case["dtype"] == "bool" or min(shape) < 2:
            mode = "constant"
        if mode == "median" and a.dtype.kind == "c":
            mode = "constant"
        kw = dict(mode=mode)
        if what == "fast":
            new = tuple(fast_len(n) for n in shape)
            if mode == "median" and rng.random() < 0.7:
                kw = {}
            out = fft_pad(a, **kw)
            rec.ev("fast_length")
        else:
            k = rng.random()
            if k < 0.2:
                n = int(rng.integers(1, 2 * max(shape) + 2))
                new = (n,) * nd
                arg = [n, np.int64(n), np.int32(n)][int(rng.integers(3))]
            else:
                new = tuple(int(rng.integers(1, 2 * n + 3)) if k > 0.5 else n + int(rng.integers(0, 8)) for n in shape)
                arg = [list, tuple, np.array][int(rng.integers(3))](new)
                if rng.random() < 0.2:
                    i = int(rng.integers(nd))
                    arg = list(new)
                    arg[i] = None
                    new = new[:i] + (shape[i],) + new[i + 1:]
            out = fft_pad(a, arg, **kw)
        rec.shape(out, new, "fft_pad")
        rec.ok(out.dtype == a.dtype, "fft_pad changes the data type", got=str(out.dtype))
        ways = list(placements(out, a, new))
        rec.ok(ways, "fft_pad: retained samples are not contiguous, in order and centred to within one sample", new=new, shape=shape)
        if mode == "constant":
            ways = [w for w in ways if not out[w[1]].any()]
            rec.ok(ways, "fft_pad: padding is not zero")
            fill = a.dtype.type(int(rng.integers(1, 100)))
            filled = fft_pad(a, mode="constant", constant_values=fill) if what == "fast" else fft_pad(a, arg, mode="constant", constant_values=fill)
            rec.ok(any((filled[w[1]] == fill).all() and np.array_equal(filled[~w[1]], out[~w[1]]) for w in ways), "fft_pad: padding ignores the fill value asked for")
        elif case["dtype"] != "bool" and a.dtype.kind != "c":
            rec.ok(out.size == 0 or (out.min() >= a.min() and out.max() <= a.max()), "fft_pad: padding exceeds the data range", mode=mode)
        rec.ev("pad")
        if case["dtype"] != "bool" and a.dtype.kind != "c" and min(shape) >= 2:
            # the options of the other modes reach the padding
            m2, opts = [("linear_ramp", dict(end_values=int(rng.integers(1, 90)))), ("mean", dict(stat_length=1)), ("maximum", dict(stat_length=1)),
                        ("minimum", dict(stat_length=1)), ("median", dict(stat_length=1)), ("reflect", dict(reflect_type="odd")),
                        ("symmetric", dict(reflect_type="odd"))][int(rng.integers(7))]
            opted = fft_pad(a, mode=m2, **opts) if what == "fast" else fft_pad(a, arg, mode=m2, **opts)
            rec.shape(opted, new, f"fft_pad with {m2}")
            fine = False
            for off, _ in list(placements(opted, a, new))[:16]:
                crop = tuple(slice(max(0, -k), max(0, -k) + min(o, n)) for k, o, n in zip(off, shape, new))
                width = [(max(0, k), n - max(0, k) - min(o, n)) for k, o, n in zip(off, shape, new)]
                if np.array_equal(np.pad(a[crop], width, mode=m2, **opts), opted):
                    fine = True
                    break
            rec.ok(fine, "fft_pad: padding is not what the mode and its options say", mode=m2, opts=opts, shape=shape, new=new)
            rec.ev("pad_options")
        if all(n >= o for n, o in zip(new, shape)):
            back = fft_pad(out, shape, mode="constant")
            rec.ok(back.shape == shape and np.array_equal(back, a), "cropping back what was padded does not restore the array", new=new, shape=shape)
            rec.ev("crop_back")

    elif what == "slice":
        idx = np.indices(shape)
        for _ in range(4):
            far = 4 if rng.random() < 0.8 else 400
            xs = [int(rng.integers(-far, n + far + 1)) for n in shape]
            if rng.random() < 0.5:
                ws = int(rng.integers(0, max(shape) + 6))
                wl = [ws] * nd
            else:
                wl = [int(rng.integers(0, n + 6)) for n in shape]
                ws = [list, tuple][int(rng.integers(2))](wl)
            kind = rng.random()
            arg = tuple(xs)
            if kind < 0.2:
                arg = np.array(xs)
            elif kind < 0.4:
                arg = [x + float(rng.uniform(-0.45, 0.45)) for x in xs]
            sl = slice_maker(arg, ws)
            rec.ok(isinstance(sl, tuple) and len(sl) == nd, "slice_maker: one slice per axis")
            got = idx[(slice(None),) + sl]
            want = [[i for i in range(x - w // 2, x - w // 2 + w) if 0 <= i < n] for x, w, n in zip(xs, wl, shape)]
            rec.ok(got.shape[1:] == tuple(len(w) for w in want), "slice_maker: window is not clipped to the array", got=got.shape[1:],
                   xs=xs, ws=wl, shape=shape)
            if got.size:
                grid = np.array(np.meshgrid(*want, indexing="ij"))
                rec.ok(np.array_equal(got, grid), "slice_maker: window is not centred on the point", xs=xs, ws=wl)
            rec.ev("slice")
        rec.raises(lambda: slice_maker(tuple(shape), [-1] * nd), "slice_maker: negative width", ValueError)
        i = int(rng.integers(nd))
        bad = [int(w) for w in wl]
        bad[i] = -int(rng.integers(1, 9))
        rec.raises(lambda: slice_maker(tuple(xs), bad), "slice_maker: negative width along one axis", ValueError, ws=bad)
        bad = [complex(x) for x in xs]
        bad[i] += 1j
        rec.raises(lambda: slice_maker(bad, wl), "slice_maker: complex position")
        rec.raises(lambda: slice_maker(xs, [w + 1j for w in wl]), "slice_maker: complex width")

    elif what == "centre":
        if a.dtype.kind == "c":
            a = a.real.copy()
            keep = a.copy()
        if rng.random() < 0.3:
            a = (a * 0 + rng.integers(0, 2, a.shape)).astype(a.dtype)
            keep = a.copy()
        out = center_data(a)
        rec.shape(out, shape, "center_data")
        rec.ok(not np.shares_memory(out, a), "center_data shares memory with its input")
        c = tuple(n // 2 for n in shape)
        rec.ok(out[c] == a.max(), "center_data: the maximum is not at index n // 2", at=np.unravel_index(out.argmax(), shape))
        ok = any(np.array_equal(np.roll(a, tuple(n // 2 - k for n, k in zip(shape, loc)), tuple(range(nd))), out)
                 for loc in np.argwhere(a == a.max())[:400])
        rec.ok(ok, "center_data is not a cyclic shift")
        rec.ev("centre")

    else:
        op = str(rng.choice(["sum", "mean", "SUM", "Mean"]))
        bins = [int(rng.integers(1, n + 1)) for n in shape]
        if rng.random() < 0.4:
            bins = [int(rng.integers(1, min(shape) + 1))] * nd
        new = [n // b for n, b in zip(shape, bins)]
        kw = {} if op == "sum" and rng.random() < 0.5 else dict(operation=op)
        src = a[tuple(slice(0, k * b) for k, b in zip(new, bins))]
        if rng.random() < 0.3:
            src = np.array(src)
            out = bin_ndarray(src, [list, tuple, np.array][int(rng.integers(3))](new), **kw)
        else:
            if src.shape != a.shape:
                rec.ev("remainder")
            size = bins[0] if len(set(bins)) == 1 and rng.random() < 0.7 else [tuple, np.array][int(rng.integers(2))](bins)
            out = bin_ndarray(a, bin_size=size, **kw)
        rec.shape(out, new, "bin_ndarray")
        want = np.zeros(new, complex)
        for i in np.ndindex(*new):
            want[i] = src[tuple(slice(k * b, (k + 1) * b) for k, b in zip(i, bins))].astype(complex).sum()
        if op.lower() == "mean":
            want = want / np.prod(bins)
        tol = 1e-4 if case["dtype"] in ("float32", "complex64") else 1e-12
        rec.close(out.astype(complex), want, f"bin_ndarray: {op.lower()} of a block", rtol=tol, scale=max(1, np.abs(want).max()), bins=bins, shape=shape)
        rec.ev("bin")
        rec.raises(lambda: bin_ndarray(a), "bin_ndarray without shape or size", ValueError)
        rec.raises(lambda: bin_ndarray(a, bin_size=1, operation="median"), "bin_ndarray with an unknown operation", ValueError)
        i = int(rng.integers(nd))
        for bad in (shape[i] + 1, shape[i] * 2, max(k for k in range(1, shape[i] + 1) if k == 1 or k < shape[i] and shape[i] % k)):
            if shape[i] % bad:
                rec.raises(lambda: bin_ndarray(a, new_shape=shape[:i] + (bad,) + shape[i + 1:], **kw), "bin_ndarray to a shape that does not divide the array's",
                           shape=shape, bad=bad, axis=i)
                rec.ev("undivided")
        rec.raises(lambda: bin_ndarray(a, new_shape=(1,) * (nd + 1)), "bin_ndarray with another number of dimensions", ValueError)
    rec.ok(np.array_equal(a, keep), "the input was modified")
