#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (one source for both)."""
import json, os, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, level_note, observe=None, state=None, ready=True, technique=None):
    if not ready:
        return
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    assert len(title) <= 80, (id, title)
    P.append(({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
               "why_tests_cant": why, "anchors": a}, level_note, technique))


def na(id, title, statement, over, text, why, files, mech, reason):
    P.append(({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
               "why_tests_cant": why, "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}}, None, None))
    NA.append({"property": id, "reason": reason})


SESS = ("Seeded search over sessions; every answer is compared with brute-force enumeration of all node subsets "
        "(up to 16 relevant nodes) or with closed forms for large flat networks. Real library code; entropy behind hash maps is seeded "
        "through the libc seam. Trusts the reference model (dst/src/model.rs). Says nothing about networks outside the generator's shapes.")
SESS_WHY = ("The unit tests run one call on a fresh session over about a dozen fixed networks with whatever hash keys the process got; "
            "they do not quantify over networks, over the calls made before, or over an interruption of an earlier call.")
FE = "src/analysis/front_end.rs: Analysis"

prop("P01", "Minimal quorums are exactly right at any point of a session",
     "Asked for the minimal quorums of a network, an analysis returns exactly the inclusion-minimal non-empty sets of nodes in which every member's quorum set is satisfied, each once and over the original node numbering. "
     "This holds whatever was asked of the same session before, in whatever order, and however often.",
     ["inputs", "histories", "schedules"], "all networks (nested, duplicated, symmetric, disconnected, with unsatisfiable or unknown members), all sequences of analysis calls, all hash seeds",
     SESS_WHY, ["src/analysis/quorums.rs", "src/analysis/front_end.rs", "src/analysis/symmetric_clusters.rs", "src/analysis/preprocessing.rs", "src/core_types/shrinking.rs", "src/analysis/sets.rs"],
     [("finder over strongly connected, satisfiable, ranked nodes", "src/analysis/quorums.rs: find_minimal_quorums"), ("shortcut for symmetric clusters", "src/analysis/symmetric_clusters.rs"), ("shrinking to relevant nodes and back", "src/core_types/shrinking.rs"), ("lazy caches", FE)],
     SESS, ["Analysis::minimal_quorums", "find_minimal_quorums"], [("cached results", "answers computed once per session", FE)])
prop("P02", "Minimal blocking sets are exactly right at any point of a session",
     "Asked for the minimal blocking sets, an analysis returns exactly the inclusion-minimal sets of nodes whose failure leaves no quorum, each once and over the original node numbering. "
     "This holds whatever was asked of the same session before, in whatever order, and however often.",
     ["inputs", "histories", "schedules"], "all networks, all sequences of analysis calls, all hash seeds", SESS_WHY,
     ["src/analysis/blocking_sets.rs", "src/analysis/front_end.rs", "src/analysis/symmetric_clusters.rs", "src/analysis/sets.rs"],
     [("finder", "src/analysis/blocking_sets.rs: find_minimal_blocking_sets"), ("shortcut for symmetric clusters", "src/analysis/symmetric_clusters.rs"), ("lazy caches", FE)],
     SESS, ["Analysis::minimal_blocking_sets", "find_minimal_blocking_sets"])
prop("P03", "Minimal splitting sets are exactly right at any point of a session",
     "Asked for the minimal splitting sets, an analysis returns exactly the inclusion-minimal sets that contain the intersection of two different minimal quorums: the empty set alone when two quorums are disjoint, nothing when there are fewer than two minimal quorums. "
     "This holds whatever was asked of the same session before.",
     ["inputs", "histories", "schedules"], "all networks, all sequences of analysis calls, all hash seeds", SESS_WHY,
     ["src/analysis/splitting_sets.rs", "src/analysis/front_end.rs", "src/analysis/symmetric_clusters.rs", "src/analysis/sets.rs"],
     [("pairwise intersections", "src/analysis/splitting_sets.rs: find_minimal_splitting_sets"), ("shortcut for symmetric clusters", "src/analysis/symmetric_clusters.rs"), ("lazy caches", FE)],
     SESS, ["Analysis::minimal_splitting_sets", "find_minimal_splitting_sets"])
prop("P04", "Both quorum-intersection checks are right and agree, whatever came before",
     "The verdict on quorum intersection is yes exactly when the network has a quorum and no two of its quorums are disjoint. "
     "The default check and the alternative check give this same verdict in every session history, and two disjoint quorums presented as a counterexample really are disjoint quorums of the network.",
     ["inputs", "histories", "schedules"], "all networks, all sequences of analysis calls before the check, all hash seeds",
     "The tests check the two verdicts on a few networks and fresh sessions; the verdict is derived from whatever the session has cached, so the history matters.",
     ["src/analysis/quorums.rs", "src/analysis/front_end.rs", "src/analysis/sets.rs"],
     [("pairwise intersection of minimal quorums", FE), ("search for non-intersecting quorums", "src/analysis/quorums.rs: find_nonintersecting_quorums"), ("symmetric cluster shortcut", "src/analysis/symmetric_clusters.rs")],
     SESS, ["Analysis::has_quorum_intersection", "Analysis::has_quorum_intersection_via_alternative_check", "find_nonintersecting_quorums"])
prop("P05", "Top tier, symmetric clusters and satisfiability are right and consistent",
     "The top tier is the union of all minimal quorums; a reported symmetric cluster is a quorum set shared by all the nodes it contains and forming a quorum cluster, and a symmetric top tier is reported exactly when the top tier forms one. "
     "All nodes, satisfiable nodes and unsatisfiable nodes partition correctly, in every session history.",
     ["inputs", "histories", "schedules"], "all networks, all sequences of analysis calls, all hash seeds", SESS_WHY,
     ["src/analysis/symmetric_clusters.rs", "src/analysis/front_end.rs", "src/core_types/fbas.rs", "src/analysis/preprocessing.rs"],
     [("symmetric cluster search", "src/analysis/symmetric_clusters.rs: find_symmetric_clusters"), ("involved nodes of minimal quorums", FE), ("satisfiable nodes", "src/core_types/fbas.rs: unsatisfiable_nodes")],
     SESS, ["Analysis::top_tier", "Analysis::symmetric_top_tier", "Analysis::symmetric_clusters", "Analysis::satisfiable_nodes", "Analysis::unsatisfiable_nodes", "Analysis::all_nodes", "find_symmetric_top_tier, find_symmetric_clusters, Fbas::relevant_nodes, Fbas::strongly_connected_components, find_satisfiable_nodes"])
prop("P06", "Results that were handed out stay right through post-processing",
     "A result keeps the value it had when it was handed out, whatever the session does afterwards, and everything derived from it (removing nodes, minimising, merging by organisation, ISP or country, counting, histograms, means, names and serialised forms) follows from the sets it contains, over the original node numbering.",
     ["inputs", "histories"], "all networks and groupings, all results, all chains of post-processing steps, at any point of the session",
     "The tests exercise single post-processing steps on fixed results; chains of steps, groupings that do not cover all nodes and results of shrunken networks are not sampled.",
     ["src/analysis/results.rs", "src/analysis/merge_by_group.rs", "src/io/results.rs", "src/core_types/groupings.rs", "src/analysis/sets.rs"],
     [("results hold shrunken sets and the mapping back", "src/analysis/results.rs: NodeIdSetVecResult"), ("merging", "src/analysis/merge_by_group.rs"), ("pretty printing", "src/io/results.rs")],
     SESS, ["NodeIdSetResult, NodeIdSetVecResult: every public method and their serialisation", "Groupings::merge_node_sets, merge_minimal_node_sets, merge_quorum_sets"])
prop("P07", "An interrupted analysis call leaves the session exact",
     "If an analysis call is cut short by an unwinding failure at any point, the session remains usable: every later call, including a repetition of the interrupted one, returns the answer a fresh session would return.",
     ["inputs", "histories", "crash_points", "fault_sequences"], "all networks, all histories, all points at which a call can be interrupted (every log record a call emits is an injection point)",
     "No test interrupts an analysis. Whether a half-filled cache survives depends on where the interruption hits.",
     ["src/analysis/front_end.rs", "src/analysis/quorums.rs", "src/analysis/blocking_sets.rs", "src/analysis/splitting_sets.rs"],
     [("lazy caches filled only with complete results", FE)],
     SESS + " Interruption points are the library's log records only (in-process seam); out-of-memory and system call failures are injected in the tool-level properties.", ["every Analysis method after an interruption"])
prop("P08", "Concurrent analysis sessions do not interfere",
     "Analysis sessions running at the same time on different threads, over equal, similar or different networks and with some of their calls interrupted, all return the answers they would return alone.",
     ["inputs", "schedules", "fault_sequences"], "all interleavings of sessions at log-record granularity, all networks, all interruption points",
     "The tests never run two sessions at once under a controlled schedule; state shared between sessions (a static, a thread-local, a cache keyed too coarsely) would go unnoticed.",
     ["src/analysis/front_end.rs", "src/analysis/preprocessing.rs", "src/analysis/symmetric_clusters.rs", "src/core_types/fbas.rs"],
     [("sessions own all their state", FE)],
     "Seeded cooperative scheduler: one thread runs at a time and is preempted at log records; answers compared with the model. Preemption between two log records is not explored here (the bulk tool's properties preempt at system calls).", ["every Analysis method"])
SIMF = ["src/simulation/mod.rs", "src/simulation/monitors.rs"]
prop("P10", "The simulator follows its growth and reevaluation protocol",
     "Growing by k nodes adds exactly k nodes one after another, configuring each once when it joins and then letting the whole network reevaluate; a reevaluation visits every node exactly once per round in a random order, stops after the first round without a change or at the given maximum, and reports the rounds it made. "
     "The recorded events tell exactly what happened, in order, also when a configurator or monitor fails in the middle and the simulation is resumed.",
     ["schedules", "histories", "fault_sequences"], "all visiting orders, all configurators (settling, oscillating, never changing), all histories of calls, failures of the configurator or the monitor at any call",
     "The tests check one visiting order per run with two configurators that settle at once; oscillation, cut-offs, resumption and event order are not sampled.",
     SIMF, [("growth and reevaluation loops", "src/simulation/mod.rs: Simulator"), ("event log", "src/simulation/monitors.rs: DebugMonitor")],
     "Seeded search; configurators are scripted stubs, the simulator and the monitors are real code. Trusts the protocol model in dst/src/qsc.rs.", ["DebugMonitor events", "calls seen by the configurator", "the resulting network"])
prop("P11", "Uniform configurators converge under churn to everybody trusting everybody",
     "Under the ideal and the super-safe configurator, whatever nodes joined, whatever quorum sets were overwritten and however many reevaluations were cut short, one undisturbed reevaluation ends with every node having the same quorum set over all current nodes, with the two-thirds-plus threshold or the full one respectively. "
     "A further reevaluation changes nothing and takes one round.",
     ["histories", "schedules", "fault_sequences"], "all histories of growth, corruption, cut-off and failed reevaluations; all visiting orders",
     "The tests grow a few fixed networks without any disturbance.", ["src/simulation/qsc/ideal.rs", "src/simulation/qsc/super_safe.rs", "src/simulation/mod.rs"],
     [("configure compares with and extends the existing quorum set", "src/simulation/qsc/ideal.rs, super_safe.rs"), ("reevaluation until stable", "src/simulation/mod.rs")],
     "Seeded search over churn histories; liveness bound: 10000 rounds. Real simulator and configurators.", ["quorum sets after each quiet period", "rounds used"])
prop("P12", "Graph-based configurators settle, and on what does not depend on the schedule",
     "Growing a network under a graph-based configurator settles within a bounded number of reevaluations, and the resulting quorum sets are the same for every visiting order and for every way of splitting the growth into steps. "
     "They are the ones the policy describes: all neighbours, all nodes of above-average rank, or the neighbours of higher (else the same) tier, with the described threshold.",
     ["inputs", "schedules", "histories"], "all graphs, all visiting orders, all ways to split growth and reevaluation, preset quorum sets, all relative thresholds",
     "The tests use five small graphs, one visiting order per run and one growth call.", ["src/simulation/qsc/graph_based/mod.rs", "src/simulation/qsc/graph_based/all_neighbors.rs", "src/simulation/qsc/graph_based/global_ranking_based.rs", "src/simulation/qsc/mod.rs"],
     [("configure reads the static graph and existing quorum sets", "src/simulation/qsc/graph_based"), ("thresholds", "src/simulation/qsc/mod.rs: calculate_*_threshold")],
     "Two seeded histories of the same workload are compared with each other and with a least-fixpoint model. Rank scores are taken from the real code (their numerical definition is P91); comparisons with the average tolerate rounding.", ["final quorum sets", "rounds used"])
prop("P13", "The random configurator builds well-formed quorum sets that follow the weights",
     "Every node ends with a quorum set of the desired size (or of all nodes while there are fewer) that contains itself, has no duplicates, only existing nodes and the desired threshold, and is never shrunk or replaced later. "
     "Choices follow the given weights: nodes of weight zero are only picked when nothing else is left, and selection frequencies over many seeds match the weights.",
     ["inputs", "schedules", "histories"], "all sizes, thresholds and weight vectors, all random numbers, all growth histories",
     "The tests draw a few samples from one process's entropy; frequencies and corner cases (zero weights, too few nodes) need controlled randomness.", ["src/simulation/qsc/random.rs", "src/simulation/mod.rs"],
     [("weighted choice without replacement", "src/simulation/qsc/random.rs: RandomQsc::configure")],
     "Seeded entropy below the random number generator. Frequencies are judged with a bound wide enough (6 standard deviations over the aggregated runs) that correct code does not fail by chance whatever its draw order.", ["quorum sets over the history"])
prop("P14", "Randomly generated graphs always have the structure of their model",
     "For all valid parameters and all random numbers, the scale-free and the small-world generator end and return a simple undirected graph with exactly the number of nodes and edges of the model, the initial core and the ring structure where not rewired, and shuffling only renames nodes. "
     "Attachment prefers well-connected nodes and rewiring happens at the given rate.",
     ["inputs", "schedules"], "all valid parameters, all sequences of random numbers", "The tests draw one graph per run from process entropy and check two parameter choices.",
     ["src/simulation/graph.rs"], [("Barabási–Albert and Watts–Strogatz constructions", "src/simulation/graph.rs: new_random_scale_free, new_random_small_world"), ("shuffled", "src/simulation/graph.rs: shuffled")],
     "Seeded entropy below the random number generator; structural invariants on every run, distributions with wide bounds over aggregates.", ["Graph outlinks via the AS-relations text format"])
prop("P15", "The standard form is a sound key for reusing analysis results",
     "Two networks with the same standard form have the same analysis results up to renaming of nodes, so results stored for one may be reused for the other; descriptions of one network that differ only in the order of nodes or validators or in nodes and references that cannot matter get the same standard form, in every process and under every hash seed. "
     "Forming it does not disturb the original.",
     ["inputs", "histories", "schedules"], "all networks and their permutations, irrelevant additions and unknown references; all hash seeds",
     "The tests compare a handful of pairs inside one process, hence under related hash seeds, and never check that equal forms imply equal results.", ["src/core_types/fbas.rs", "src/core_types/shrinking.rs", "src/core_types/quorum_set.rs", "src/bin/bulk_fbas_analyzer.rs"],
     [("to_standard_form", "src/core_types/fbas.rs"), ("hash of the standard form's JSON in bulk results", "src/bin/bulk_fbas_analyzer.rs")],
     "Each description is processed on a fresh thread with its own hash entropy; forms are compared byte by byte as JSON and results by the model. Idempotence is only claimed for networks in which all nodes are relevant.", ["Fbas::to_standard_form, serialised"])
prop("P16", "A network keeps its meaning through any history of edits and reloads",
     "Through any sequence of adding nodes, replacing quorum sets, copying, shrinking to a set of nodes, and saving to and reloading from JSON, a network answers every query (quorum tests, satisfiability, quorum sets, names, serialised form, groupings) as a plain list of nodes with quorum sets would. "
     "Copies do not affect each other.",
     ["histories", "inputs"], "all edit histories, all networks, all points at which the network is saved and reloaded",
     "The tests apply one or two edits to fixed networks.", ["src/core_types/fbas.rs", "src/core_types/quorum_set.rs", "src/core_types/shrinking.rs", "src/io/core_types.rs", "src/core_types/groupings.rs", "src/io/groupings.rs"],
     [("node list plus public-key index", "src/core_types/fbas.rs: Fbas"), ("raw forms for JSON", "src/io/core_types.rs")],
     "Seeded edit histories against a list model, judged after every step.", ["Fbas public methods", "JSON form"])

exec(open(os.path.join(V, "tools", "props_tools.py")).read()) if os.path.exists(os.path.join(V, "tools", "props_tools.py")) else None

na("P90", "The relative and two-thirds threshold formulas are correct for all sizes",
   "For every number of validators n the default threshold is the smallest integer of at least (2n+1)/3, and a relative threshold x gives the smallest integer of at least x times n, but never less than 1.",
   ["inputs"], "all n and x", "Tests evaluate a few n.", ["src/simulation/qsc/mod.rs"], [("threshold formulas", "src/simulation/qsc/mod.rs")],
   "A pure arithmetic function of two numbers: no schedule, time, I/O, randomness or history for a simulator to control. (Its values are used as reference in P11-P13.)")
na("P91", "Rank scores are the stationary scores of the link structure",
   "The rank scores of a graph are non-negative, sum to at most one and approximate a fixed point of passing every node's score on equally along its links.",
   ["inputs"], "all graphs", "Tests check orderings on small graphs.", ["src/simulation/graph.rs"], [("power iteration", "src/simulation/graph.rs: get_rank_scores")],
   "A deterministic numerical function of the graph alone: nothing nondeterministic or faulty can enter it, so simulation would merely be input sampling.")

checks = []
for p, note, tech in P:
    if note is None:
        continue
    checks.append({"property": p["id"], "quick_cmd": "./check.sh " + p["id"], "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + p["id"],
                   "technique": tech or "deterministic simulation with fault injection (seeded search over schedules, histories and faults; replayable)",
                   "level": "exploration", "level_note": note})
open(os.path.join(V, "properties.jsonl"), "w").write("".join(json.dumps(p, ensure_ascii=False) + "\n" for p, _, _ in P))
m = {"version": 1, "setup_cmd": "./check.sh --build bins", "checks": checks, "not_applicable": NA,
     "notes": "No hooks in /repo: the seams used are the libc boundary (LD_PRELOAD shim), the log facade, and the public traits QuorumSetConfigurator and SimulationMonitor. See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
try:
    import jsonschema
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p, _, _ in P:
        jsonschema.validate(p, s)
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
except ImportError:
    pass
for p, _, _ in P:
    n = p["statement"].count(". ") + 1
    if n > 3:
        print("long statement", p["id"], n)
print(len(P), "properties,", len(checks), "checks")
