"""Runs the check of one property: cases in worker processes, verdict, evidence, replay."""
import argparse
import collections
import importlib
import importlib.machinery
import importlib.util
import json
import logging
import multiprocessing as mp
import os
import pathlib
import signal
import sys
import time
import traceback
import warnings

os.environ.setdefault("MPLBACKEND", "Agg")
VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get("OTFMON_REPO", "/repo"))
sys.path.insert(0, str(REPO))
sys.dont_write_bytecode = True


class _FreshLoader(importlib.machinery.SourceFileLoader):
    """Compile the code under test from source, never from cached bytecode."""

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)


class _FreshFinder:
    @staticmethod
    def find_spec(name, path=None, target=None):
        if name != "pyotf" and not name.startswith("pyotf."):
            return None
        base = REPO.joinpath(*name.split("."))
        for f, pkg in ((base / "__init__.py", [str(base)]), (base.with_suffix(".py"), None)):
            if f.is_file():
                return importlib.util.spec_from_file_location(
                    name, f, loader=_FreshLoader(name, str(f)), submodule_search_locations=pkg)
        return None


sys.meta_path.insert(0, _FreshFinder)

import numpy as np  # noqa: E402

from .core import Inconclusive, Rec, Violation, case_hash, jsonable  # noqa: E402

# cases take seconds at most: what has not returned by now does not return
CASE_TIMEOUT = 240
NO_END = f"a call does not return (the case has not finished within {CASE_TIMEOUT} s)"
RUN_TIMEOUT = {"quick": 780, "thorough": 5400}


class CaseTimeout(BaseException):
    pass


def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(mod, case):
    """Run one case; returns a plain dict describing what happened."""
    rec = Rec()
    out = dict(case=case, status="held")
    t0 = time.time()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_TIMEOUT)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            np.random.seed(1)
            logging.getLogger("pyotf").setLevel(logging.CRITICAL)
            mod.check(case, rec)
    except Violation as e:
        out.update(status="violated", msg=e.msg, detail=e.detail)
    except (Inconclusive, MemoryError) as e:
        out.update(status="inconclusive", msg=repr(e))
    except CaseTimeout:
        out.update(status="violated", msg=NO_END)
    except (ImportError, OSError) as e:
        out.update(status="inconclusive", msg=repr(e), tb=traceback.format_exc())
    except Exception as e:
        # The workload only makes calls the property promises an answer to, and
        # the oracles check shapes before using a result: an exception means
        # that the code failed or returned something unusable.
        out.update(status="violated", msg=f"unexpected {type(e).__name__}: {e}",
                   detail=dict(traceback=traceback.format_exc().splitlines()[-12:]))
    finally:
        signal.alarm(0)
        try:
            plt = sys.modules.get("matplotlib.pyplot")
            if plt is not None:
                plt.close("all")
        except Exception:
            pass
    out.update(events=dict(rec.events), tags=dict(rec.tags), oracle=rec.oracle,
               nontrivial=rec.nontrivial, findings=rec.findings, maxdev=rec.maxdev, seconds=time.time() - t0)
    return out


_MOD = None
_LINES = set()
_TOOL = 4


def _on_line(code, line):
    f = code.co_filename
    if f.startswith(_PKG):
        _LINES.add((f[len(_PKG):], line))
    return sys.monitoring.DISABLE


def watch_lines():
    """Record which lines of the package run (each location reports once, so the cost is nil)."""
    global _PKG
    _PKG = str(REPO / "pyotf") + os.sep
    mon = sys.monitoring
    mon.use_tool_id(_TOOL, "otfmon")
    mon.register_callback(_TOOL, mon.events.LINE, _on_line)
    mon.set_events(_TOOL, mon.events.LINE)


def body_lines():
    """{file: lines inside functions of the package}, the `if __name__` parts left out."""
    out = {}
    for f in sorted((REPO / "pyotf").glob("*.py")):
        lines = set()

        def walk(code, top):
            if not top:
                lines.update(ln for _, _, ln in code.co_lines() if ln and ln != code.co_firstlineno)
            for c in code.co_consts:
                if hasattr(c, "co_code"):
                    # class bodies run on import, like the module
                    walk(c, top=c.co_name in _classes)
        src = f.read_text()
        import ast
        tree = ast.parse(src)
        _classes = {n.name for n in ast.walk(tree) if isinstance(n, ast.ClassDef)}
        tree.body = [n for n in tree.body if not (isinstance(n, ast.If) and "__name__" in ast.unparse(n.test))]
        walk(compile(tree, str(f), "exec"), True)
        if lines:
            out[f.name] = lines
    return out


def _init(modname, slots, count):
    global _MOD, _SLOTS, _SLOT
    with count.get_lock():
        _SLOT = count.value
        count.value += 1
    _SLOTS = slots
    _MOD = importlib.import_module(modname)
    try:
        watch_lines()
    except Exception:  # no monitoring available: the evidence then lists no lines
        pass


def _work(chunk):
    out = []
    for i, case in chunk:
        # the parent watches these: compiled code cannot be interrupted from here
        if 2 * _SLOT + 1 < len(_SLOTS):
            _SLOTS[2 * _SLOT], _SLOTS[2 * _SLOT + 1] = i, time.time()
        out.append(run_case(_MOD, case))
        if 2 * _SLOT + 1 < len(_SLOTS):
            _SLOTS[2 * _SLOT + 1] = 0
    out[-1]["lines"] = sorted(_LINES)
    _LINES.clear()
    return out


def load(pid):
    return importlib.import_module(f"otfmon.props.{pid.lower()}")


def import_under_test():
    import pyotf
    where = pathlib.Path(pyotf.__file__).resolve().parent
    if where != (REPO / "pyotf").resolve():
        print(f"INCONCLUSIVE: pyotf imported from {where}, not {REPO}")
        sys.exit(2)


def known_findings():
    """{(property, key): text} from the committed list (fixed: entries suppress nothing)."""
    out = {}
    f = VERIF / "known_findings.txt"
    if f.exists():
        for line in f.read_text().splitlines():
            if line.startswith("finding:"):
                fields = line[len("finding:"):].strip().split(None, 2)
                prop = fields[0].split("=", 1)[1]
                key = fields[1].split("=", 1)[1]
                out[prop, key] = fields[2] if len(fields) > 2 else ""
    return out


def lines_report(reached):
    """Per file of the package: function lines run, of how many, and the list."""
    try:
        total = body_lines()
    except Exception:
        return {}
    out = {}
    for f, lines in total.items():
        got = sorted(lines & reached.get(f, set()))
        if got:
            out[f] = dict(run=len(got), of=len(lines), lines=spans(got))
    return out


def spans(lines):
    out = []
    for n in lines:
        if out and n == out[-1][1] + 1:
            out[-1][1] = n
        else:
            out.append([n, n])
    return " ".join(str(a) if a == b else f"{a}-{b}" for a, b in out)


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("pid", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=("quick", "thorough"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("OTFMON_JOBS", "0")) or min(8, os.cpu_count() or 1))
    ap.add_argument("--no-evidence", action="store_true")
    ap.add_argument("--self-check", action="store_true", help="import everything; used as set-up")
    a = ap.parse_args(argv)
    import_under_test()

    if a.self_check:
        for f in sorted((VERIF / "otfmon" / "props").glob("c*.py")):
            load(f.stem)
        print("all property modules load")
        return 0
    if a.replay:
        doc = json.loads(pathlib.Path(a.replay).read_text())
        r = run_case(load(doc["property"]), doc["case"])
        print(json.dumps(jsonable(r), indent=1))
        if r["status"] == "violated":
            print(f"VIOLATION property={doc['property']} replay={a.replay}")
            return 1
        return 0 if r["status"] == "held" else 2

    t0 = time.time()
    pid = a.pid.upper()
    mod = load(pid)
    rng = np.random.default_rng([a.seed, int(pid[1:])])
    cases = [json.loads(json.dumps(jsonable(c))) for c in mod.cases(rng, a.tier)]
    results, stopped = [], False
    deadline = t0 + RUN_TIMEOUT[a.tier]
    ctx = mp.get_context("fork")
    jobs = max(1, min(a.jobs, getattr(mod, "MAX_JOBS", 64), len(cases)))
    timed_out = False
    slots, count = ctx.Array("d", 2 * jobs, lock=False), ctx.Value("i", 0)
    with ctx.Pool(jobs, _init, (mod.__name__, slots, count)) as pool:
        step = getattr(mod, "CHUNK", 1)
        numbered = list(enumerate(cases))
        chunks = [numbered[i:i + step] for i in range(0, len(cases), step)]
        it = pool.imap_unordered(_work, chunks)
        nviol = 0
        for _ in chunks:
            rs, hung = None, []
            while rs is None and not hung and time.time() < deadline:
                try:
                    rs = it.next(timeout=5)
                except mp.TimeoutError:
                    hung = [int(slots[2 * k]) for k in range(jobs)
                            if slots[2 * k + 1] and time.time() - slots[2 * k + 1] > CASE_TIMEOUT + 20]
            if hung:
                results += [dict(case=cases[i], status="violated", msg=NO_END, detail={}, events={}, tags={}, oracle=0,
                                 nontrivial=True, findings=[], maxdev={}, seconds=CASE_TIMEOUT) for i in hung]
                stopped = True
                break
            if rs is None:
                timed_out = True
                break
            results += rs
            nviol += sum(r["status"] == "violated" for r in rs)
            if nviol >= 5:
                stopped = True
                break
        pool.terminate()

    events, tags, maxdev = collections.Counter(), collections.Counter(), {}
    distinct = set()
    oracle = 0
    finds = collections.OrderedDict()
    reached = collections.defaultdict(set)
    for r in results:
        for f, line in r.pop("lines", ()):
            reached[f].add(line)
        events.update(r["events"])
        tags.update(r["tags"])
        oracle += r["oracle"]
        for k, v in r["maxdev"].items():
            maxdev[k] = max(v, maxdev.get(k, 0))
        if r["nontrivial"]:
            distinct.add(case_hash(r["case"]))
        for key, text in r["findings"]:
            finds.setdefault(key, text)
    viol = [r for r in results if r["status"] == "violated"]
    inc = [r for r in results if r["status"] == "inconclusive"]

    # known findings: only those listed are tolerated
    known = known_findings()
    for key, text in finds.items():
        if (pid, key) in known:
            print(f"KNOWN-FINDING: property={pid} {text}")
        else:
            viol.append(dict(case=dict(finding=key), status="violated", msg=text, detail={}))

    problems = []
    if timed_out:
        problems.append("run exceeded its time limit")
    if inc:
        problems.append(f"{len(inc)} undecided cases, first: {inc[0]['msg']}")
    if not stopped:
        for name, least in getattr(mod, "MIN_EVENTS", {}).items():
            if events[name] < least:
                problems.append(f"monitor event {name!r} seen {events[name]} times, needs {least}")

    samples = [r["case"] for r in results if r["nontrivial"]][:3]
    ev = dict(
        property=pid, tier=a.tier, seed=a.seed, level="exploration",
        coverage=dict(
            evaluations=len(results), distinct_nontrivial=len(distinct), rule=mod.RULE,
            samples=jsonable(samples), oracle_evaluations=oracle,
            monitor_events=dict(sorted(events.items())),
            observed=dict(sorted(tags.items())[:400]),
            max_relative_deviation={k: float(f"{v:.3g}") for k, v in sorted(maxdev.items())},
            code_lines_reached=lines_report(reached),
            known_findings=list(finds.items()), undecided=len(inc), jobs=jobs,
        ),
        assumptions=list(getattr(mod, "ASSUMPTIONS", ())),
        slowest_case_s=round(max((r["seconds"] for r in results), default=0), 2),
        wall_s=round(time.time() - t0, 2), violations=len(viol),
    )
    if not a.no_evidence:
        (VERIF / "evidence").mkdir(exist_ok=True)
        (VERIF / "evidence" / f"{pid}.json").write_text(json.dumps(ev, indent=1))

    if viol:
        rd = VERIF / "replays"
        rd.mkdir(exist_ok=True)
        for i, r in enumerate(viol[:5]):
            f = rd / f"{pid}-{case_hash(r['case'])}.json"
            f.write_text(json.dumps(jsonable(dict(property=pid, case=r["case"], msg=r["msg"],
                                                  detail=r.get("detail"), seed=a.seed, tier=a.tier)), indent=1))
            print(f"  {r['msg']} :: {json.dumps(jsonable(r.get('detail')))[:600]}")
            print(f"  case: {json.dumps(jsonable(r['case']))[:600]}")
            print(f"VIOLATION property={pid} replay={f}")
        return 1
    if problems:
        print(f"INCONCLUSIVE property={pid}: " + "; ".join(problems))
        if inc and inc[0].get("tb"):
            print(inc[0]["tb"])
        return 2
    print(f"held property={pid} tier={a.tier} seed={a.seed}: {len(results)} cases "
          f"({len(distinct)} distinct non-trivial), {oracle} oracle evaluations, "
          f"{sum(events.values())} monitor events, {time.time() - t0:.1f} s")
    return 0


if __name__ == "__main__":
    sys.exit(main())
