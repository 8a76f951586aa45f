"""C35: results do not depend on the state of the process or its surroundings."""
import io
import os
import pickle
import subprocess
import sys
import tempfile
import warnings

import numpy as np

from .. import core
from . import c34

ID = "C35"
RULE = ("every kind of public call (those of C34) is made in processes forked from one that imported but never called the package, once as they "
        "are and several times after one to three changes of the process: numpy error handling, buffer size and print options, random "
        "generators, warning filters, debug logging with handlers, locale, figure settings and backend, a removed working directory, "
        "environment variables, replaced or missing standard streams, garbage collection, trace and profile functions, FFT workers, another "
        "thread; and in new interpreters with other flags (-O, -X dev), hash seeds, thread numbers and import orders; non-trivial when "
        "numbers were compared")
ASSUMPTIONS = ["results are compared to 1e-9 of the largest value", "errors the user asked for (numpy 'raise', warnings as errors) are not judged",
               "for -O only calls that are accepted are judged (arguments are partly checked by assert)", "Linux fork"]
MIN_EVENTS = {"call": 3000, "compared": 3000, "silent": 400, "spawned": 6, "spawned_call": 1000, "errstate": 40, "bufsize": 40, "printoptions": 40,
              "random": 40, "warnings": 40, "logging": 40, "locale": 40, "figures": 40, "cwd": 40, "environ": 40, "streams": 40, "gc": 40,
              "trace": 40, "workers": 40, "thread": 40, "first_import": 6}
CHUNK = 1
VERIF = str(core.__file__).rsplit(os.sep, 2)[0]


def cases(rng, tier):
    for _ in range(28 if tier == "quick" else 700):
        yield dict(what="state", seed=int(rng.integers(2**31)))
    for _ in range(8 if tier == "quick" else 100):
        yield dict(what="spawn", seed=int(rng.integers(2**31)))


# ------------------------------------------------------------ changes of the process
def errstate(g):
    how = str(g.choice(["ignore", "warn", "call"]))
    if how == "call":
        np.seterrcall(lambda *a: None)
    np.seterr(all=how)


def bufsize(g):
    np.setbufsize(int(g.choice([16, 160, 65536])))


def printoptions(g):
    np.set_printoptions(precision=int(g.integers(0, 4)), threshold=int(g.integers(1, 10)), edgeitems=1, suppress=bool(g.integers(2)),
                        sign=str(g.choice(["+", " "])), linewidth=20)


def generators(g):
    import random
    np.random.seed(int(g.integers(2**31)))
    random.seed(int(g.integers(2**31)))


def filters(g):
    warnings.resetwarnings()
    warnings.simplefilter(str(g.choice(["ignore", "always", "once", "default"])))


def debug(g):
    import logging
    logging.raiseExceptions = True
    logger = logging.getLogger(str(g.choice(["", "pyotf"])))
    h = logging.StreamHandler(io.StringIO())
    h.setFormatter(logging.Formatter("%(asctime)s %(name)s %(lineno)d %(message)s"))
    logger.addHandler(h)
    level = int(g.choice([logging.DEBUG, logging.INFO, 1]))
    for name in ("", "pyotf", "pyotf.otf", "pyotf.phaseretrieval", "pyotf.microscope", "pyotf.utils", "pyotf.display", "pyotf.zernike"):
        logging.getLogger(name).setLevel(level)


def place(g):
    import locale
    for name in [str(v) for v in g.permutation(["C.utf8", "C", "POSIX"])]:
        try:
            locale.setlocale(locale.LC_ALL, name)
            break
        except locale.Error:
            pass


def figures(g):
    import matplotlib as mpl
    import matplotlib.pyplot as plt
    mpl.rcParams.update({"figure.dpi": int(g.integers(50, 300)), "figure.figsize": (3, 4), "font.size": float(g.uniform(5, 20)),
                         "lines.linewidth": 3.0, "axes.grid": bool(g.integers(2)), "xtick.labelsize": 5})
    plt.switch_backend(str(g.choice(["svg", "pdf", "agg"])))
    if g.random() < 0.5:
        plt.figure()
        plt.plot([1, 2], [3, 4])  # somebody else's figure is current


def cwd(g):
    d = tempfile.mkdtemp(prefix="otfmon_")
    os.chdir(d)
    os.rmdir(d)


def environ(g):
    for k in ("HOME", "LANG", "LC_ALL", "PATH", "PYTHONPATH", "TMPDIR", "USER"):
        os.environ.pop(k, None)
    os.environ.update(TZ="Asia/Kathmandu", LANG="tr_TR.UTF-8", OMP_NUM_THREADS="3", COLUMNS="10", DEBUG="1", PYOTF_DEBUG="1", NO_COLOR="1")


def streams(g):
    if g.random() < 0.5:
        sys.stdout = sys.stderr = sys.stdin = None
    else:
        closed = io.StringIO()
        closed.close()
        sys.stdout, sys.stderr, sys.stdin = closed, closed, closed
    warnings.simplefilter("ignore")


def collector(g):
    import gc
    if g.random() < 0.5:
        gc.disable()
    else:
        gc.set_threshold(1, 1, 1)


def trace(g):
    if g.random() < 0.5:
        sys.setprofile(lambda *a: None)
    else:
        def local(*a):
            return local
        sys.settrace(local)


def workers(g):
    import scipy.fft
    keep.append(scipy.fft.set_workers(int(g.integers(2, 5))))
    keep[-1].__enter__()


def thread(g):
    pass  # see changed_process


keep = []
CHANGES = dict(errstate=errstate, bufsize=bufsize, printoptions=printoptions, random=generators, warnings=filters, logging=debug, locale=place,
               figures=figures, cwd=cwd, environ=environ, streams=streams, gc=collector, trace=trace, workers=workers, thread=thread)


def changed_process(job):
    """The numbers of some calls after the process was changed; what they wrote to the standard output."""
    calls, names, seed = job
    g = np.random.default_rng(seed)
    out = sys.stdout = io.StringIO()
    sys.stderr = io.StringIO()
    for n in names:
        CHANGES[n](g)
    got = []

    def run():
        got.extend(c34.attempt(c) for c in calls)

    if "thread" in names:
        import threading
        t = threading.Thread(target=run)
        t.start()
        t.join()
    else:
        run()
    sys.settrace(None)
    sys.setprofile(None)
    return got, None if out.closed else out.getvalue()


class Pristine(c34.Pristine):
    """Changes the process that answers before it makes the call."""

    @staticmethod
    def answer(job):
        return changed_process(job)


_PRISTINE = []


def pristine():
    if not _PRISTINE or _PRISTINE[0].owner != os.getpid():
        _PRISTINE[:] = [Pristine()]
    return _PRISTINE[0]


def check(case, rec):
    rng = np.random.default_rng(case["seed"])
    rec.tag(what=case["what"])
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        dict(state=state, spawn=spawn)[case["what"]](case, rec, rng)
    rec.nontrivial = True


def judge(rec, name, got, want, msg):
    if isinstance(got, str) or isinstance(want, str):
        rec.ok(isinstance(got, str) and isinstance(want, str), f"{name} is refused or accepted depending on {msg}",
               here=str(got)[:300], plain=str(want)[:300])
        rec.ev("refused")
        return
    c34.compare(rec, got, want, f"{name} gives another result depending on {msg}")
    rec.ev("compared")


def some_calls(rng, names):
    """Several calls of each kind, drawing figures takes longer."""
    return [(n, int(rng.integers(2**31)), 0) for n in names for _ in range(1 if "plot" in n or n == "ApotomeMicroscope" else 6)]


def plain(P, calls):
    want = P.ask((calls, (), 0))
    if want is None:
        raise core.Inconclusive(f"no answer from the other process for {calls}")
    return want[0]


def state(case, rec, rng):
    P = pristine()
    names = sorted(c34.catalogue())
    for i in rng.permutation(len(names))[:11]:
        name = names[int(i)]
        calls = some_calls(rng, [name])
        want = plain(P, calls)
        for _ in range(5):
            k = int(rng.choice([1, 1, 2, 3]))
            ch = [str(v) for v in rng.permutation(sorted(CHANGES))[:k]]
            if name.endswith("_repr"):
                # the digits of arrays in a representation are numpy's print options
                ch = [c for c in ch if c != "printoptions"]
            if not ch:
                continue
            got = P.ask((calls, tuple(ch), int(rng.integers(2**31))))
            what = " and ".join(ch)
            rec.ok(got is not None, f"{name} ends the process after changes of {what}")
            for c in ch:
                rec.ev(c)
            rec.tag(call=name)
            for a, b in zip(got[0], want):
                if b == "unbuilt":
                    continue
                rec.ev("call")
                judge(rec, name, a, b, f"the state of the process ({what})")
            if got[1] is not None:
                rec.ok(not got[1], f"{name} writes to the standard output", wrote=got[1][:200])
                rec.ev("silent")


CHILD = """
import sys, pickle, importlib
out = sys.stdout.buffer
sys.path.insert(0, sys.argv[1])
import otfmon.runner, warnings
warnings.simplefilter("ignore")
for name in sys.argv[2].split(","):
    importlib.import_module(name)
import logging
logging.getLogger("pyotf").setLevel(logging.CRITICAL)
from otfmon.props import c34
jobs = pickle.load(sys.stdin.buffer)
out.write(pickle.dumps([c34.attempt(j) for j in jobs]))
"""
MODULES = ("pyotf", "pyotf.otf", "pyotf.utils", "pyotf.zernike", "pyotf.phaseretrieval", "pyotf.microscope", "pyotf.display", "pyotf.labview")


def spawn(case, rec, rng):
    P = pristine()
    names = sorted(c34.catalogue())
    calls = some_calls(rng, [names[int(i)] for i in rng.permutation(len(names))[:60]])
    want = plain(P, calls)
    flags = [["-O"], ["-O"], ["-O"], ["-X", "dev"], [], ["-W", "always"]][int(rng.integers(6))]
    order = [str(m) for m in rng.permutation(MODULES)][: int(rng.integers(1, 9))]
    env = dict(os.environ, PYTHONHASHSEED=str(int(rng.integers(1, 2**31))), MPLBACKEND="Agg", TZ=str(rng.choice(["UTC", "Asia/Tokyo"])))
    for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS"):
        env[k] = str(int(rng.choice([1, 2, 4])))
    env["LANG"] = str(rng.choice(["C", "C.UTF-8", "de_DE.UTF-8"]))
    env["OTFMON_REPO"] = str(__import__("otfmon.runner").runner.REPO)
    with tempfile.TemporaryDirectory(prefix="otfmon_") as d:
        run = subprocess.run([sys.executable, "-B", *flags, "-c", CHILD, VERIF, ",".join(order)], input=pickle.dumps(calls), capture_output=True,
                             env=env, cwd=d, timeout=220)
        left = os.listdir(d)
    what = f"the interpreter ({' '.join(flags) or 'plain'}, {order[0]} imported first)"
    rec.ok(run.returncode == 0, f"calls that work here fail depending on {what}", err=run.stderr.decode(errors="replace")[-1500:])
    rec.ok(not left, "files were written to the working directory", files=left)
    rec.ev("spawned")
    rec.ev("first_import")
    rec.tag(flags=" ".join(flags), first=order[0])
    for c, got, w in zip(calls, pickle.loads(run.stdout), want):
        if isinstance(w, str) and (w == "unbuilt" or "-O" in flags):
            continue
        judge(rec, c[0], got, w, what)
        rec.ev("spawned_call")
