#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "seeded deterministic simulation with fault injection: "
NOTE = ("Seeded search over simulated executions of the real crate, built twice (overflow checks on and off): no counterexample among the runs "
        "the evidence counts, not a proof. Trusts the simulator (readers, sinks, disk, scheduler), the reference model in sim/src and std's number conversions. ")
checks = [
 ("C01", "short and interrupted reads through every entry point, against a model of the document", "Documents are drawn up to about 150,000 values and 5,000 joints."),
 ("C02", "read errors of every kind at drawn bytes, with data behind them", "Where the error is attributed is decided by the byte at which the root's brace closes."),
 ("C03", "stored documents torn at drawn bytes and read back, against the model of what is left", "Every document is cut at many offsets, biased to token boundaries and the tail."),
 ("C04", "damaged and hostile byte streams under a memory meter, a call budget and a watchdog", "Memory is metered by the global allocator; hangs by processor time."),
 ("C05", "damaged documents which still load, checked for consistency, edited, saved and reloaded", "Non-trivial are only the runs whose damaged document loads."),
 ("C06", "sinks with short and interrupted writes and flushes, against the in-memory serialisation", "Buffered and line-buffered sinks from std are included."),
 ("C07", "sinks failing at drawn bytes, full or failing at the flush; prefix check", "What the sink accepted is compared byte for byte."),
 ("C08", "save, power loss and restart on a simulated disk with torn and lost sectors, reload against a model", "Saves in place and by rename; the client syncs as documented."),
 ("C09", "histories of cursor operations with failing operations and I/O between, against a list model", "Histories of up to some hundred operations."),
 ("C10", "frame sources stopping by error, panic or early end, with false size hints, against a list model", "Memory is metered, so that a trusted size hint shows."),
 ("C11", "threads scheduled one I/O call at a time by the seed, nested operations and stalls, against each operation alone", "Interleavings are controlled at every reader, sink and frame-source call, not between machine instructions."),
 ("C12", "one token of a stored document damaged or lost, under every delivery, against the expected diagnosis", "One damaged token per run; several layouts."),
 ("C18", "streams good, damaged and hostile through every delivery and entry point, against the outcome from memory", "The reference is the library's own load from memory, made once per stream."),
 ("C19", "motion sections losing, repeating and exchanging values and lines, against exact counts", "Counts are kept where their product fits."),
 ("C20", "generations of save, crash, restart, load and save on a simulated disk, against the first file", "Up to four generations per run."),
 ("C21", "hierarchies losing, repeating, moving and gaining lines, against a grammar automaton", "Where loaders may be of two minds (a second OFFSET, say) the run is not judged."),
 ("C22", "sessions with failures and panics repeated hundreds of times under a memory meter", "Memory is metered by the global allocator, after as many warming repetitions as are then measured."),
 ("C23", "loads and edits failing by damage, loss and failing devices, each error read in every way there is", "Words are compared with data, not with fixed texts."),
 ("C15", "literals built before, inside and after the faulty delivery of their own text, against its load and a model, through edits and a save", "The 55 literals are fixed (a program cannot be drawn at run time); what the seed draws is layout, delivery, failures, moments and edits. If literals do not compile the simulator is built without them and this check reports that."),
 ("C17", "saves of edited documents under drawn options through faulty sinks, against a reference writer", "Numbers are compared with std's formatting of the value held; a joint without channels may end its CHANNELS line with a space or not."),
 ("C24", "histories of several documents loaded, copied, edited, broken and dropped, every pair compared after every step, against models", "Documents hold finite numbers when loaded; edits may make others."),
 ("C13", "failed, torn and panicking operations followed by healthy ones, same outcome and bounded calls", "Bound is linear in bytes plus interruptions."),
]
na = {
 "C14": "A pure function of one channel name: no time, I/O, concurrency, faults or history for a simulator to vary.",
}
m = {
 "version": 1,
 "setup_cmd": "./check.sh --build",
 "checks": [{"property": i, "quick_cmd": "./check.sh %s quick" % i, "thorough_cmd": "./check.sh %s thorough" % i,
             "technique": T + t, "level": "exploration", "level_note": NOTE + n} for i, t, n in sorted(checks)],
 "not_applicable": [{"property": k, "reason": v} for k, v in na.items()],
 "notes": "No hooks in /repo: the crate's own seams (BufRead, Write, iterators, the global allocator) reach every source of nondeterminism. Commits in /repo are repairs only; see known-findings.txt. Replay a finding with ./check.sh --replay FILE.",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
