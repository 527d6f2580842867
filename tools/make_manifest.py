"""Writes MANIFEST.json."""
import json

NOTES = {
    "C01": ("deterministic simulation of annotation histories with seeded crashes and restarts, checked at every step against an executable reference model", "Every operation of every seeded history is followed by a comparison of all answers with a closure computed independently."),
    "C02": ("deterministic simulation of annotation histories with invalid operations injected, refusals compared with a reference model", "Every operation (valid or not) is predicted by the reference model and every refusal is followed by a full comparison of the answers."),
    "C03": ("deterministic simulation of annotation histories with questions interleaved under seeded generator states, checked against a reference model", "Questions are asked in simulated histories; bounds on the cluster range are computed exactly for up to 9 components."),
    "C04": ("discrete-event simulation of replicas behind lossy, duplicating, reordering networks with crashes, convergence checked against a reference model", "Senders, links and replicas are simulated in virtual time; the manager and its persistence are real."),
    "C05": ("deterministic simulation of sessions with save/restart in forked processes at seeded points, differential check against the uninterrupted session", "The restored manager and the original answer the same later history; also files written by the previous release."),
    "C06": ("deterministic simulation with disk-fault injection at every I/O call (errors, short writes, crash, power loss, interruption, concurrent process)", "All file calls of the real save go through a simulated disk that numbers them and injects one seeded fault; durable-state model of a journalling file system with data not ordered with metadata."),
    "C07": ("deterministic simulation with fault injection on stored files and read calls, compared with the sessions the files describe", "Loads of damaged, hand-described or failing files; a load must give the described session or raise."),
    "C08": ("deterministic simulation with seeded ambient state (generators, clocks, hash seeds, earlier computations), differential check against a pristine process", "Each seeded computation is repeated in disturbed circumstances; second phase with interpreters of different string hashing."),
    "C09": ("deterministic scheduling of real threads at source-line switch points with seeded preemption and session kills, differential check against solo runs", "Threads hand over a baton at seeded source lines; results must equal those of the session alone in a pristine process."),
    "C10": ("deterministic simulation with aborts injected at seeded source lines, manager calls and vector accesses, differential check against new objects", "After every aborted or completed call, arguments are unchanged and the reused object behaves as a new one."),
    "C11": ("deterministic simulation of sessions with seeded entropy and restarts, every clustering result checked as an invariant against the closure", "Every clustering computed along the session is checked for separated must-links and joined cannot-links."),
    "C12": ("deterministic simulation of sessions with seeded entropy and restarts, every clustering result checked for exact coverage and canonical numbering", "Every clustering computed along the session is checked, with vectors of other data and other orders."),
    "C13": ("deterministic simulation of sessions with seeded entropy and restarts, every sampling compared with the exact set of eligible pairs", "Distances are integers, so the eligible and nearest pairs are computed exactly."),
    "C14": ("discrete-event simulation of the whole annotation service: lossy network, crashes, disk faults, then progress within bounded steps", "The full loop sample-annotate-infer-cluster-save runs on real code with simulated network, disk and time; liveness is bounded by the number of pairs."),
    "C15": ("deterministic simulation of text calls with injected model-load failures and aborts, differential check against a pristine process", "spaCy models are stubbed (none is installed); the code of the repository and scikit-learn are real."),
    "C16": ("deterministic simulation of long sessions with restarts, refusals and degenerate requests under seeded generator states; bounded liveness: every call within a budget of counted steps, compared with a new session in the same state", "Steps of the library's code are counted by sys.monitoring; a call that exceeds its budget is stopped and reported, so endless loops are found in bounded time."),
    "C17": ("deterministic simulation of sessions with restarts and seeded generator states; refinement of every hierarchy, cut and k-means result against an executable reference over all ties and initial choices", "The reference (sim/reference.py) starts from the closure of the constraints by graph search and from plain arithmetic; instances with distances closer than 1e-4 are left out."),
    "C18": ("deterministic simulation with entropy, clock and process-wide generators under the plan's control (resets, forks, reused objects); frequencies over some 300 calls against the fair value, by a Chernoff bound of e**-30", "Entropy is simulated, so a verdict is repeatable; k-means outcomes are weighed by the executable reference over all initial choices."),
    "C19": ("deterministic simulation of sessions with restarts and seeded generator states; refinement of every seeded spectral, strict affinity propagation and density-based result against an executable reference", "Spectral clustering is that of the installed scikit-learn on a matrix built independently; instances in which errors of up to 1e-4 (spectral) or between 1e-18 and 1e-7 (affinity propagation) or another seed change the reference are left out."),
    "C20": ("deterministic simulation of branching sessions: seeded copies and pickles of managers and objects, crashes with restart from a pickle, restoration in another process; branches compared with the model and with new objects over their replayed history", "An object that refuses to be copied is not reported; spectral clustering is left out where its affinity has repeated eigenvalues (known finding of C08)."),
}
NA = {
    "N01": "a pure function of one text: no concurrency, time, I/O, randomness or multi-party behaviour for a simulated schedule or fault to act on (the language model it calls is not installed here); its independence of earlier calls and failed loads is C15",
    "N02": "a pure function of one corpus: nothing for a schedule or fault sequence to vary; its independence of earlier calls and failed loads is C15",
    "N03": "a pure function of its arguments without state, randomness or I/O",
    "N05": "argument validation is a pure function of the arguments; that errors leave managers unchanged is C02 and C10",
    "N06": "a statistical tendency without an exact oracle, and nothing in it depends on schedule, time, I/O or faults",
}
manifest = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": [
        {"property": p, "quick_cmd": "./check %s --tier quick" % p, "thorough_cmd": "./check %s --tier thorough" % p, "evidence_file": "evidence/%s.json" % p,
         "technique": t, "level": "exploration", "level_note": n + " Seeded search, not exhaustive; assumptions are listed in the evidence file."}
        for p, (t, n) in NOTES.items()
    ],
    "not_applicable": [{"property": p, "reason": r} for p, r in NA.items()],
    "notes": "No hooks were added to /repo: every seam is reached from outside (builtins.open and os calls, random and numpy generators, clocks, sys.settrace, threading, spacy.load). Replay: ./replay replays/<file>.json",
}
with open("MANIFEST.json", "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
