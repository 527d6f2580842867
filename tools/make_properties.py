#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the text stays reviewable)."""
import json, os

B = "src/cognitivefactory/interactive_clustering/"
BIN, CAB = B + "constraints/binary.py", B + "constraints/abstract.py"
KM, HI, SP, DB, AP, MP = (B + "clustering/%s.py" % x for x in ("kmeans", "hierarchical", "spectral", "dbscan", "affinity_propagation", "mpckmeans"))
CLA, SAM = B + "clustering/abstract.py", B + "sampling/clusters_based.py"
PRE, VEC, FRQ = B + "utils/preprocessing.py", B + "utils/vectorization.py", B + "utils/frequency.py"
SFA, CFA, MFA = B + "sampling/factory.py", B + "clustering/factory.py", B + "constraints/factory.py"

P = []

def p(id, title, statement, over, text, why, files, mechanism, observe):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": {"files": files, "mechanism": [{"name": m, "where": ", ".join(x.split("/")[-1] for x in files)} for m in mechanism], "observe_at": [observe]}})

p("C01", "Inferred constraints are exactly the closure of what annotators said, always",
  "At every point of any history, the constraints manager reports exactly the data that were added and not removed, exactly the constraints that were accepted and neither deleted nor dropped with their data, and as inferred constraint between two data exactly what follows from those: must-link when a chain of must-links joins them (a datum is always must-linked with itself), cannot-link when one cannot-link separates their two chains, nothing otherwise. "
  "This holds whatever the order in which constraints and data are added, repeated, refused, deleted and re-added, for several managers living in one process, and across saving and restarting the session at any point.",
  ["histories", "fault_sequences"],
  "every sequence of additions, deletions and refused operations on data and constraints, interleaved over several sessions, with restarts from a save anywhere in it",
  "The tests follow a few fixed scripts on 4 to 7 data; the incremental closure update and its full rebuild only diverge after particular orders of adds, merges, deletions and re-additions.",
  [BIN, CAB, MFA], ["incremental transitive closure on addition", "full rebuild on deletion of a constraint or of a datum", "ordered-pair storage of added constraints"],
  "added and inferred constraint queries over all pairs of managed data, and the list of managed data, after each operation")

p("C02", "Operations are refused exactly when invalid, and a refusal changes nothing",
  "Adding a constraint is refused exactly when one of the two data is not managed, the constraint type is unknown, or the opposite constraint is already inferred between them; adding data is refused exactly when it is already managed, removing data exactly when it is not, and every query or deletion naming unmanaged data is refused. "
  "A refusal is a ValueError and leaves every observable answer of the manager as it was; everything else is accepted, returns true, and repeating an accepted constraint changes nothing.",
  ["histories", "inputs"],
  "every manager state reachable by a history of operations and restarts, and every valid or invalid operation issued in it",
  "Tests try one refusal of each kind from one state; whether contradiction is detected depends on the whole closure, and partial updates before a refusal only show in states with merged components.",
  [BIN, CAB], ["validation before mutation in each mutator", "contradiction test against the inferred constraint"],
  "result or error of each operation, and a full snapshot of all answers before and after it")

p("C03", "Components, completeness, cluster range and conflicts match the constraints",
  "In every reachable state the must-link components are a partition of the managed data into the classes of inferred must-links; completeness is reported exactly when every pair of data has an inferred constraint; the conflict report for a new constraint lists exactly the data of the two components concerned when it contradicts the inferred one and is absent otherwise. "
  "The maximum number of clusters is the number of components and the minimum is at least 2, enough to separate all cannot-linked components, and at most the larger of 2 and one plus the degeneracy of the graph of cannot-linked components, for every state of the random generators. "
  "None of these questions, nor saving, nor what the caller does with the returned lists, changes any answer.",
  ["histories", "configurations"],
  "every manager state reachable by a history of operations and restarts (at least one datum for the range), and every state of the process random generators that the estimation draws from",
  "Tests check these views on a few small states; the views are recomputed from internal sets whose layout depends on the history, and the range estimation draws random orderings.",
  [BIN], ["component listing from closure sets", "greedy colouring of the cannot-link graph with random orderings", "completeness count"],
  "components, completeness, cluster range and conflict queries after each step of the history")

p("C04", "The order, duplication and delay of annotation deliveries do not matter",
  "When several replicas of a session receive the same mutually consistent set of annotations, each through its own network that delays, reorders, duplicates and loses messages (senders retry until acknowledged) and each with its own crashes and restarts from its last save, no replica ever refuses an annotation and, once every annotation has been delivered, all replicas give the same answers, those of the closure of the set. "
  "At each moment a replica answers exactly the closure of what it has received since (or had saved before) its last restart, whichever way round the two data of a constraint are named.",
  ["schedules", "fault_sequences", "histories"],
  "every consistent annotation set, every delivery order, duplication, loss with retry, partition and restart schedule for each replica",
  "Tests add constraints in one order on one manager; order independence is a statement over all permutations of deliveries, with duplicates and restarts in between.",
  [BIN], ["closure update on addition must be commutative and idempotent", "normalisation of the pair order"],
  "all answers of every replica after each delivery and at the end")

p("C05", "A session saved and loaded again is indistinguishable from the original",
  "After any history, saving a constraints manager and loading the file in a new process (also one whose locale has another text encoding) gives a manager with the same data in the same order, the same added and inferred constraints, the same components, completeness and maximum number of clusters, and the same reactions to every later operation. "
  "Seeded sampling, seeded k-means clustering and single- or complete-linkage hierarchical clustering give the same result on the restored manager as on the original; files saved by the previous release still load to the state they were saved from.",
  ["histories", "inputs"],
  "every history before the save (including refused and deleted constraints and removed and re-added data), every spelling of data identifiers, and every continuation after the restart",
  "The tests round-trip one fixed manager; lost, reordered or reinterpreted constraints only show for particular histories, identifiers and continuations.",
  [BIN, KM, SAM, HI], ["list of data and of added constraints written to a file", "replay of the file through the public additions"],
  "all answers of original and restored manager after the restart and after each later operation, and seeded results on both")

p("C06", "A failed, interrupted or crashed save never loses the saved session",
  "Whatever goes wrong while a session is saved over an existing file (full disk, I/O error on any call, short write, interruption, death of the process, power loss), loading that path afterwards gives either the complete previous session or the complete new one, and other saved sessions are untouched; another process loading or saving the same path during the save also meets only complete sessions. "
  "A save that reports success has put the complete new session at the path, where it survives death of the process; a save that cannot complete raises instead of reporting success. "
  "A failed save leaves the in-memory session unchanged and usable, and repeating it once the fault is gone succeeds.",
  ["crash_points", "fault_sequences", "schedules"],
  "every point of every save at which a system call fails or is cut short, the call is interrupted, the process dies, the machine loses power, or another process loads or saves the same file",
  "The tests save once to a healthy disk; no test fails, interrupts or crashes a save.",
  [BIN], ["writing beside the file, synchronising, then replacing it at once", "cleanup after failure"],
  "content of the saved path after each fault, as loaded in a new process")

p("C07", "Loading gives exactly the saved session or raises, never a wrong session",
  "Loading a file gives exactly the session it describes, or raises: a file that is missing, empty, cut anywhere, partly overwritten by another one, zero-filled, overwritten with bytes that are no text, or unreadable part-way, or that describes contradictory constraints, constraints on data it does not list or unknown constraint types, is never turned into a manager with missing, extra or altered data or constraints. "
  "An error or interruption while loading affects neither the file nor any later load.",
  ["fault_sequences", "inputs", "crash_points"],
  "every saved file, every truncation, tearing, zero-fill and character corruption of it, and every read error, short read or interruption while loading",
  "The tests load one intact file; damaged files and failing reads are never exercised.",
  [BIN], ["strict parsing of the whole file before use", "replay of constraints through the validating additions"],
  "error raised, or all answers of the loaded manager against an independent reading of the same bytes")

p("C08", "The same seed gives the same clustering and sampling, in any circumstances",
  "With a fixed random seed (0 included), every clustering algorithm and every sampling strategy returns the same result for the same data, constraints and parameters, whatever the state of the process-wide random generators, whatever was computed before by this or any other object, whether the object is new or reused, in verbose mode or not, whatever time passes meanwhile and whatever the clocks show, and in another process with other string hashing.",
  ["histories", "configurations"],
  "every seed from 0 to 2^32-1, every state of the ambient random generators, every sequence of earlier computations on the same or other objects, every hash seed",
  "Tests compare one seeded call to a recorded result in one process; leaks from ambient generators, earlier calls or hash order need those to vary between two calls.",
  [KM, SAM, SP, AP, MP, HI, DB, CLA], ["private generator built from the seed at each call", "reset of per-call state", "renaming of clusters by sorted identifiers"],
  "result of the seeded call in each circumstance")

p("C09", "Concurrent sessions in one process do not influence each other",
  "Sessions running in different threads of one process, each with its own objects or reading a shared constraints manager and shared vectors that nobody modifies meanwhile, obtain exactly the results they obtain when run alone, under every interleaving of their steps. "
  "Seeded clusterings and samplings, additions, deletions and queries of constraints (the cluster range estimation excepted), saves and loads leave the process-wide random generators as they were.",
  ["schedules"],
  "every interleaving of the steps of two or three sessions (managing constraints, clustering, sampling, saving, loading, preparing texts)",
  "The tests are single-threaded; interference through module-level or generator state needs a switch at a particular step.",
  [KM, SAM, BIN, HI, SP, DB, AP, MP, PRE, VEC], ["no shared mutable state between objects", "private random generators"],
  "results of each session run concurrently against the same session run alone")

p("C10", "An aborted computation leaves data and constraints untouched and can be retried",
  "When a clustering, a sampling or a question to the manager is aborted at any instant (user interruption, lack of memory, failure of the constraints manager or of the store of vectors it reads), the constraints manager, the vectors and the other arguments are left unchanged, and so they are by a call that completes. "
  "A clustering or sampling object that was aborted, refused its arguments or was used before gives, at its next call, what a new object would give, and results returned by earlier calls are not altered by later ones.",
  ["crash_points", "fault_sequences", "histories"],
  "every instant at which the computation can be interrupted or one of its inputs can fail, and every sequence of earlier completed or aborted calls on the same object",
  "No test aborts a computation or reuses an object after a failure.",
  [KM, HI, SP, DB, AP, MP, SAM, BIN], ["read-only use of manager and vectors", "per-call reset of working state"],
  "manager answers, vectors and arguments after the abort, and the result of the retry against a new object")

p("C11", "Clusterings never break the constraints they promise to honour",
  "K-means and hierarchical clustering (and every later cut of the hierarchy into two or more clusters, by either criterion) never separate two data with an inferred must-link and never join two data with an inferred cannot-link, for any number of clusters, initialisation and iteration limit; affinity propagation in its strict mode never separates must-linked data; density-based clustering never joins cannot-linked data. "
  "This holds for every seed, and unseeded for every state of the random generators, on any constraints state reached during a session.",
  ["histories", "inputs", "configurations"],
  "every session history producing the constraints, every vector set (ties and duplicates included), every requested number of clusters, and every random initialisation",
  "Tests use a dozen fixed texts with a fixed seed; violations need particular geometry, constraint graphs and initial centres.",
  [KM, HI, AP, DB], ["assignment restricted by cannot-links and propagated along must-links", "infinite distance between cannot-linked groups", "merging of must-link closures"],
  "returned cluster of each pair of constrained data")

p("C12", "Every clustering labels exactly the managed data, with canonical cluster numbers",
  "Every clustering algorithm returns one cluster for each managed datum and for nothing else, also when data were added to or removed from the session since the vectors were prepared, so that the vectors come in another order or cover more data (a seeded result is then the one for the vectors of exactly the managed data); clusters are numbered 0, 1, 2... by first appearance in the sorted order of data identifiers, except that density-based clustering gives each noise datum its own negative number. "
  "K-means, hierarchical and spectral clustering never return more clusters than asked when no cannot-link exists, and hierarchical clustering exactly as many as asked (at most one per datum) when no constraint exists.",
  ["histories", "inputs", "configurations"],
  "every session history with data added and removed around the clusterings, every superset and order of the vectors, every number of clusters and random initialisation (for the k-means variant with metric learning: data with enough distinct vectors)",
  "Tests call each algorithm with exactly matching vectors in insertion order; mismatches appear only after data were added or removed.",
  [KM, HI, SP, DB, AP, MP, CLA, CFA], ["selection of the vectors of managed data", "renaming of clusters by sorted identifiers"],
  "keys and values of each returned clustering")

p("C13", "Sampling proposes only valid, new and suitable pairs, and enough of them",
  "For every random draw, sampling returns distinct pairs of two different managed data, smaller identifier first, all of them satisfying what was asked: no pair with an added (or inferred) constraint when these are excluded, only pairs of the same cluster or of different clusters when restricted, and as many pairs as asked or all eligible ones if there are fewer. "
  "With the closest or farthest restriction they are the closest or farthest eligible pairs, in order of distance; the named strategies combine these restrictions as their names say.",
  ["histories", "configurations", "inputs"],
  "every manager state, clustering result, vector set and request size, every combination of restrictions, and every state of the random generators",
  "Tests sample from one small fixture with fixed seeds; eligibility depends on the closure, and counts only go wrong near exhaustion.",
  [SAM, SFA], ["filtering of pairs by constraints and clusters", "random draw or sort by distance"],
  "returned list of pairs")

p("C14", "An annotation session always finishes and recovers the annotator's clusters",
  "When annotators answer truthfully every pair proposed by sampling, over a network that delays, duplicates, reorders and loses messages and with server crashes and restarts from the last save, then once faults stop the session completes within as many answered pairs as there are pairs of data: sampling keeps proposing pairs until constraints are complete (a strategy restricted to or across clusters, as long as such a pair is open) and none afterwards, and k-means and hierarchical clustering then return exactly the annotator's clusters, for any number of clusters asked. "
  "If an annotator made mistakes, each truthful answer that gets refused comes with a conflict report containing both data of at least one mistaken constraint, and after deleting those the answer is accepted and the session completes in the same way.",
  ["schedules", "fault_sequences", "histories"],
  "every ground truth, sampling strategy, batch size, delivery schedule, crash and restart schedule and set of annotator mistakes",
  "Tests exercise the components separately; no test runs the interactive loop to its end, let alone with faults.",
  [SAM, BIN, KM, HI], ["sampling excludes known pairs", "closure inference", "conflict report", "hard constraints in clustering"],
  "progress of the session after faults stop, final clusters, and refusals during the session")

p("C15", "Text preparation does not depend on earlier calls or failed model loads",
  "Each call preparing or vectorizing texts uses the language model it names and gives what the same call gives in a new process, whatever calls came before with other models or options and whatever failed or was interrupted in them; a model that cannot be loaded gives a ValueError naming it, and the next call with a loadable model, or with that model once installed, succeeds. "
  "Every call returns one entry per given text under the same identifiers and leaves its input unchanged.",
  ["fault_sequences", "histories"],
  "every sequence of calls, models, options and texts, every pattern of failing, slow or interrupted model loads and uses",
  "The tests that use language models cannot even run without the models; none of them makes a load fail and then retries.",
  [PRE, VEC], ["model loaded by name at each call", "translation of load failures"],
  "result or error of each call in the sequence against the same call alone")

p("C16", "Every call ends after bounded work, however long the session has lasted",
  "Every operation and question of the constraints manager, every save and load, clustering, later cut of a hierarchy and sampling ends, after an amount of work bounded by the number of managed data (at most about cubic, times the iteration limit for iterative algorithms): for every state of a session, every request and every state of the random generators, also when nothing is left to propose, more clusters or pairs are asked than exist, all vectors are equal, or assignments never stabilise. "
  "The work of manager operations, questions, saves and loads, the size of the saved file and the number of files left beside it (by saves that succeeded or failed) depend on the current data and constraints only, not on how many operations, deletions, repetitions, refusals, saves and restarts came before.",
  ["histories", "configurations", "inputs"],
  "every session history of any length, every algorithm with every iteration limit and tolerance, every sampling request, every state of the random generators",
  "Tests use short sessions and requests that can be met; loops that never end and costs that grow with the history need exhausted, degenerate or long-lasting sessions.",
  [BIN, KM, HI, DB, MP, AP, SAM], ["iteration limits", "break when nothing can be merged or split", "closure rebuilt from current constraints", "number of pairs limited to the eligible ones"],
  "steps executed by each call, against a budget and against a new session in the same state; size and number of files")

p("C17", "Hierarchies and k-means results are those of the algorithm, for every session",
  "In every state of a session, hierarchical clustering starts from the must-link components and joins, again and again, the two groups that are closest by the chosen linkage (single: nearest data; complete: farthest data; average: barycentres; ward: sum of all distances inside the joined group over the product of the two sizes) among those without a cannot-link between them, the smaller joined group first on ties; the root joins what cannot be joined otherwise. The tree it gives says exactly this, and a cut splits the biggest (or latest joined) group until as many as asked exist or a must-link component would be split, also when the session has gone on since the hierarchy was computed. "
  "K-means gives what the constrained algorithm gives from some choice of different managed data as initial centroids, for every state of the random generators (a seed makes the same choice whatever the iteration limit): data are placed from the last to the first, each with its must-linked data, in the nearest cluster that holds no cannot-linked data, or else in a new one, and barycentres computed anew, until their total shift is below the tolerance while the clusters stay the same, or the iteration limit. Neither depends on how the state was reached.",
  ["histories", "configurations", "inputs"],
  "every history of additions, deletions, refusals, data changes and restarts, every state of the random generators or seed, every linkage, number of clusters, cut, iteration limit and tolerance; distances that floating point cannot tell apart excepted",
  "Tests compare a few recorded results of 8 to 13 data; the choice of merges, splits and assignments depends on the whole constraint state and on the random initial data.",
  [HI, KM], ["distance computation per linkage and selection of the closest groups", "cut of the hierarchy by size or iteration", "assignment under constraints", "computation of centroids and convergence test"],
  "partition returned by clusterings and cuts, and dictionary of the hierarchy, against an executable reference exploring every tie and initial choice")

p("C18", "Unseeded random choices are fair and never repeat earlier ones",
  "Without a seed, each random sampling proposes every eligible pair with the same chance (and every two of them together with the same chance), and each k-means starts from every set of managed data with the same chance, whatever was drawn before: with a new or a reused object, after the process-wide random generators or the clock were set back, and in each of several processes forked from one. "
  "Taken over different seeds, the choices are spread as evenly.",
  ["histories", "configurations", "fault_sequences"],
  "every session state, sampling restriction and number of clusters; every sequence of calls, resets of generators and clock, and forks before each call",
  "Tests fix the seed; that unseeded calls repeat each other, starve a pair or agree between worker processes shows only over many calls under controlled entropy.",
  [SAM, KM], ["generator created at each call from the given seed or the system's entropy", "random choice without replacement"],
  "frequency of each pair, of each two pairs and of each k-means outcome over some 300 calls against the fair value")

p("C19", "Spectral, affinity and density-based results are those of the algorithm",
  "In every state of a session and for every state of the random generators, seeded spectral clustering gives the groups of normalised spectral clustering on Gaussian similarities of the managed data (gamma one over the number of features), in which pairs that follow to be must-linked have similarity 1 and pairs that follow to be cannot-linked 0. "
  "Strict affinity propagation gives the groups of affinity propagation (damping one half, median preference, the given iteration limits) between must-link components, two components being as similar as their two closest data; everything is together when it does not converge. "
  "Density-based clustering puts data together only when must-links and steps of at most eps, from or to a datum that is within eps of a datum with enough neighbours, lead from one to the other; a datum without such a neighbour and without must-link is in no cluster.",
  ["histories", "configurations", "inputs"],
  "every history of additions, deletions, refusals, data changes and restarts, every random state, seed, number of clusters, iteration limit, eps and neighbour count; results that rounding errors could change excepted",
  "Tests compare recorded results of one data set; which rows of the matrices a constraint changes depends on the order of the managed data, which the history sets, and on inferred constraints.",
  [SP, AP, DB], ["similarity matrix and its modification by inferred constraints", "similarities between components, messages and convergence test", "neighbourhoods and merging of local clusters"],
  "partition returned by clusterings against an executable reference that drops instances where small errors would change the result")

p("C20", "Copied and pickled sessions go on like the original, independently of it",
  "Whenever a deep copy or a pickle of a constraints manager, of a clustering object or of a sampling object can be made, at any point of a session, what it gives (in this process or another one, at once or after a crash) goes on like the original would: same data in the same order, same answers, same reactions to every later operation, same seeded clusterings and samplings, and same later cuts of a hierarchy computed before. "
  "Nothing done afterwards to the original or to one copy changes another.",
  ["histories", "configurations", "fault_sequences"],
  "every history of operations, calls, copies (nested ones included), crashes with restart from a pickle and restorations in another process; every algorithm and sampling strategy",
  "Tests never copy an object; what a copy shares with its original, or lacks, shows only when both go on differently.",
  [BIN, HI, KM, SP, DB, AP, MP, SAM], ["state held in plain attributes of the objects"],
  "answers of each branch against the model of its own history, and its results against new objects over the replayed history in a pristine process")

p("N01", "Text preparation normalises texts as documented",
  "Preparing a text lowercases it, removes punctuation, accents and superfluous spaces, and applies the requested stop word deletion, parsing filter and lemmatization, for every text.",
  ["inputs"], "every text and option combination", "Tests sample a few sentences.", [PRE], ["lowercasing, translation table, token filters, unicode normalisation"], "returned texts")
p("N02", "Vectorization gives each text its documented vector",
  "TF-IDF vectors are those of word 1- to 3-grams present in at least two texts, and model vectors those of the named language model, one per text, for every corpus.",
  ["inputs"], "every corpus", "Tests sample one corpus.", [VEC], ["TF-IDF fit", "language model vectors"], "returned vectors")
p("N03", "Cluster frequencies sum to one and match the cluster sizes",
  "For every clustering result, the frequency of each cluster is its share of the data, only existing clusters are listed, and an empty result has no frequencies.",
  ["inputs"], "every clustering result", "Tests sample four results.", [FRQ], ["count over a dictionary"], "returned frequencies")
p("N05", "Invalid parameters of algorithms and factories are rejected",
  "Every constructor and every clustering or sampling call rejects parameters outside its documented domain with a ValueError, before computing anything.",
  ["inputs"], "every parameter value", "Tests sample one bad value per parameter.", [KM, HI, SP, DB, AP, MP, SAM, SFA, CFA, MFA], ["parameter checks"], "error raised")
p("N06", "Soft-constraint algorithms tend to satisfy more constraints",
  "Spectral clustering, k-means with metric learning and non-strict affinity propagation optimise objectives that reward satisfied constraints, for every data set.",
  ["inputs"], "every vector set and constraint set", "Tests compare recorded results.", [SP, MP, AP], ["penalised objective", "modified similarities"], "objective value of the result")

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
