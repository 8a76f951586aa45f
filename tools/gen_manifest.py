#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, pathlib

T = {
 "C01": ("runtime monitor: PSFa/PSFi of randomly configured models against an explicit plane-wave sum",
         "Sampled configurations (all 15 vector x condition combinations, both parities, irregular z, six pupil kinds) compared to 1e-9; trusts the reference sum in otfmon/ref.py."),
 "C02": ("runtime monitor: amplitude OTF sample by sample against the weighted spherical cap",
         "Every sample of sampled configurations is judged, except a thin shell where membership is decided by rounding."),
 "C03": ("runtime monitor: conservation, symmetry, transform and band-limit invariants on random models", "Metamorphic and analytic invariants over sampled configurations; no second implementation needed."),
 "C04": ("runtime monitor: cross-model differential oracle (Hanser against Sheppard)", "Agreement within a discretisation error established on the correct tree with margin; coarse but sensitive to any wrong factor."),
 "C05": ("runtime monitor: random operation histories on live models, each read compared with a freshly built model (trace specification)", "Sampled histories over all attributes, pupils, rejected assignments and read orders."),
 "C06": ("runtime monitor: fault injection of invalid arguments, rejection and unchanged state observed", "Sampled invalid values around each documented limit; state digest before and after."),
 "C07": ("runtime monitor: metamorphic relations between runs with permuted, split, duplicated and shifted z planes", "Sampled plane sets, both parities; exact plane-wise comparison."),
 "C08": ("runtime monitor: centring and symmetry invariants of models and microscopes", "Sampled configurations of every class, both parities, all vector components."),
 "C09": ("runtime monitor: paired executions in two length units", "Sampled configurations and factors 1e-9 to 1e6, results and accept/reject decisions."),
 "C10": ("runtime monitor: pupils of aberrated models against independent Zernike phase and magnitude", "Sampled coefficient sets, names and amplitudes on random models."),
 "C11": ("runtime monitor: values against exact polynomials (integer coefficients, rational arithmetic spot checks) and inner products", "All Noll modes up to 120 and pairs up to high degree at sampled points."),
 "C12": ("runtime monitor: exhaustive enumeration of the tabulated Noll indices plus random arrays and rejected inputs", "All 120 tabulated indices exhaustively; array shapes and invalid inputs sampled."),
 "C13": ("runtime monitor: offline checker over recorded iteration trajectories (independent update step, recorded histories, stop rules)", "Trajectories reconstructed from runs limited to 1, 2, ... iterations, single updates judged with the plane wave model."),
 "C14": ("runtime monitor: recovery of known pupils from simulated data; residual-driven oracle", "Sampled pupils within the regime where the algorithm converges; tolerance calibrated with margin."),
 "C15": ("runtime monitor: least-squares optimality and regeneration relations of results", "Sampled results and mode counts; independent fit and plane wave model."),
 "C16": ("runtime monitor: data preparation against a sample-by-sample specification", "Sampled stacks of eight types, shapes, multipliers and sizes."),
 "C17": ("runtime monitor: transforms against explicit centred Fourier sums, round trips, Parseval", "Sampled arrays of 1 to 4 dimensions, all axis subsets."),
 "C18": ("runtime monitor: padding, slicing, centring and binning against sample-by-sample specifications", "Sampled arrays, windows and sizes."),
 "C19": ("runtime monitor: ring statistics against a per-ring loop", "Sampled images, centres and ring widths."),
 "C20": ("runtime monitor: microscope images against independently convolved and binned models", "Sampled configurations of three classes, both models, all oversampling factors."),
 "C21": ("runtime monitor: SIM PSFs and OTFs against the explicit interference pattern and Wiener filter", "Sampled configurations of the three SIM classes."),
 "C22": ("runtime monitor: random histories of microscope setting changes against newly built microscopes (trace specification)", "Sampled histories; one known finding (oversample_factor assignment)."),
 "C23": ("runtime monitor: side-effect detector around every public call (argument digests, read-only arrays, shared memory, process state) and repetition", "All 63 kinds of public calls in random sequences."),
 "C24": ("runtime monitor: thread stress with line-level schedule log, injected yields, sequential oracle", "Sampled schedules (switches and overlaps counted); CPython with the GIL."),
 "C25": ("runtime monitor: artists read back from drawn figures against independently projected data", "Sampled arrays without symmetry, models and microscopes; headless backend."),
 "C26": ("runtime monitor: differential oracle, wrapper against the documented pipeline", "Sampled stacks, argument styles and options; pipeline parts judged by C13, C14, C16."),
 "C27": ("runtime monitor: extent and scaling helpers against rational and extended precision", "Sampled counts, spacings, indices."),
 "C29": ("runtime monitor: duplicates by every route and calls in other interpreters against freshly built objects over later histories", "Sampled states, routes, histories; results compared, not pickle bytes."),
 "C30": ("runtime monitor: read-back, defaults against spelled-out construction, evaluated representations", "Sampled classes, omitted settings and histories."),
 "C31": ("runtime monitor: helpers element by element against the math module; attribute histories against a state machine with notification counts", "Sampled numbers of all magnitudes, types and shapes; sampled histories of declared attributes."),
 "C32": ("runtime monitor: tracemalloc peaks and held memory, weak references to objects and results, repeated calls", "Sampled histories and arguments; memory seen by tracemalloc (numpy arrays included)."),
 "C33": ("runtime monitor: metamorphic oracle, equal values in other memory layouts, types and containers", "Sampled layouts of all array arguments of 38 kinds of calls, number types of all settings, sequence types; unsigned types only where a property of its own says so."),
 "C34": ("runtime monitor: differential oracle, the same call in a process forked before the package was called, over histories of nearly equal and recycled arguments", "Sampled histories of 75 kinds of calls, five variants per argument list."),
 "C35": ("runtime monitor: differential oracle, the same call in forked processes after injected changes of their state and in other interpreters", "Sampled calls of 75 kinds, one to three of fifteen changes of the process; sampled interpreter flags, hash seeds, threads and import orders."),
 "C28": ("runtime monitor: artists of diagnostic plots against the recorded results", "Sampled results, mode counts and slices; headless backend."),
}
checks = [dict(property=k, quick_cmd=f"./check.sh {k} --tier quick", thorough_cmd=f"./check.sh {k} --tier thorough",
               evidence_file=f"evidence/{k}.json", technique=t, level="exploration", level_note=n) for k, (t, n) in T.items()]
doc = dict(version=1, setup_cmd="./check.sh --self-check", checks=checks, not_applicable=[],
           notes="Pure Python code under test: no hooks in /repo are needed, all monitors attach from outside. "
                 "Findings and repairs: known_findings.txt; design: DESIGN.md.")
pathlib.Path(__file__).resolve().parent.parent.joinpath("MANIFEST.json").write_text(json.dumps(doc, indent=1) + "\n")
