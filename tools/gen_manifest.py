#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation with fault injection: "
CHECKS = {
 "C01": (T + "seeded programs solved under seeded hash orders and line orders; residual and domain oracle",
         "Sampling of programs, hash orders and line orders by seed; the reference evaluator and generator are trusted. No bound is exhausted."),
 "C02": (T + "seeded well-posed programs solved under seeded hash orders and line orders; exact reference solution and cross-run agreement",
         "Sampling by seed inside the stated class of well-posed programs; the reference elimination is trusted."),
 "C03": (T + "seeded histories of accepted, refused and malformed equations; bookkeeping model and reference solution",
         "Sampling of histories by seed against a small executable model of the bookkeeping."),
 "C04": (T + "seeded functions with errors, panics, NaN and infinities injected at chosen evaluations; root and error oracle",
         "Sampling of functions, fault points and hash orders by seed; function family is the simulator's."),
 "C05": (T + "seeded interleavings of compilations, evaluations, failures, panics and context changes; reference evaluator",
         "Sampling of expression texts and call interleavings by seed; the reference evaluator is trusted."),
 "C06": (T + "seeded call histories with failing calls on a ledger allocator; handle model, leak and use-after-free oracle",
         "Sampling of call histories by seed; allocator ledger detects double, wild and late writes to freed blocks and growth, not reads of stale but unpoisoned data."),
 "C07": (T + "seeded call histories with rejected and unallocatable requests on a ledger allocator; contents of every handle read back after every call",
         "Sampling of call histories by seed, sizes up to 9 (grown by products and augmentation)."),
 "C08": (T + "seeded operation histories with rejected operations and singular inversions; textbook algebra applied step by step",
         "Sampling of histories by seed over f64, f32, i64 and i32 matrices."),
 "C10": (T + "seeded thread schedules with pre-emptions, stalls, failing and panicking callbacks in a cold process; every thread compared with itself running alone",
         "Sampling of schedules by seed under sequentially consistent memory; pre-emption at instrumented basic blocks of the four library crates, allocations and locks, not inside dependencies."),
 "C11": (T + "seeded networks studied under seeded hash orders, node numberings and element orders, with conflicting, floating and cut-short studies; flux-law and balance oracle",
         "Sampling of networks by seed; the element laws are restated by the simulator."),
 "C12": (T + "seeded well-posed networks studied under seeded hash orders, node numberings and element orders; independent network solution",
         "Sampling of networks up to 200 nodes by seed; ill-conditioned networks (estimate above 1e5) are not compared."),
 "C13": (T + "seeded networks of custom elements with errors, panics, NaN and infinities injected at chosen constructor calls and flux evaluations; own-error, balance and aftermath oracle",
         "Sampling of networks and fault points by seed; custom elements are the simulator's."),
 "C14": (T + "seeded building histories saved at seeded points and rebuilt from the text alone; model description and outcome of original compared with reloaded",
         "Sampling of histories by seed; numbers may change in the last place when a text is read back."),
 "C09": (T + "seeded sessions with failing solves on a ledger allocator; session model and reference solution",
         "Sampling of sessions by seed; linear and one-variable quadratic texts, the session model is trusted."),
}
CHECKS.update({
 "C15": (T + "seeded errors, short and interrupted transfers, full disks, kills and concurrent runs of the shipped program; library, reference-solution and file-system oracle",
         "Sampling of models, options, fault points and operation orders by seed; kills without power loss."),
 "C16": (T + "seeded errors, short and interrupted transfers, full disks, closed outputs, kills and concurrent runs of the shipped program; library, reference-solution and file-system oracle",
         "Sampling of programs, options, fault points and operation orders by seed; kills without power loss."),
 "C17": (T + "seeded user and application events on a simulated document; document compared with a model after each event",
         "Sampling of event histories by seed; the document is the simulator's stand-in for a browser."),
})
NA = {
 "C18": "A fixed table filled once from constants: no schedule, time, I/O or other party can change it and no fault can be injected, so it is a pure lookup that a table comparison settles; conversions are only exercised as inputs of the C01/C02/C10 simulations.",
 "C19": "Rewriting the text is a pure function of the text (no state, time, I/O or concurrency); simulation has no schedule or fault to decide. Programs using every construct run through the rewriter inside the C01/C02/C09/C16 simulations.",
}
m = {"version": 1,
     "setup_cmd": "bin/check build",
     "hooks": {"guard": "none", "enable": "no hooks in /repo: the seams are the process boundary (getrandom, futex, allocator, libc file calls), compiler-inserted edge callbacks, function pointers the API already takes, and a stand-in DOM", "source_commits": []},
     "checks": [{"property": k, "quick_cmd": f"bin/check {k} quick", "thorough_cmd": f"bin/check {k} thorough",
                 "technique": t, "level": "exploration", "level_note": n} for k, (t, n) in sorted(CHECKS.items())],
     "not_applicable": [{"property": k, "reason": r} for k, r in NA.items()],
     "notes": "bin/check replay FILE re-executes a replay file; bin/check sim selftest checks determinism."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
