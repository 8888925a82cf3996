"""Properties and the jobs that decide them. check.py runs the jobs; tools/gen.py writes properties.jsonl and MANIFEST.json."""
from vlib import Job, PyJob

SB = "src/pymatching/sparse_blossom/"
F_DEC = SB + "driver/mwpm_decoding.cc"
F_MWPM = SB + "matcher/mwpm.cc"
F_FLOOD = SB + "flooder/graph_flooder.cc"
F_TREE = SB + "matcher/alternating_tree.cc"
F_REGION = SB + "flooder/graph_fill_region.cc"
F_GRAPH = SB + "flooder/graph.cc"
F_UG = SB + "driver/user_graph.cc"
F_UGH = SB + "driver/user_graph.h"
F_SEARCH = SB + "search/search_flooder.cc"
F_SGRAPH = SB + "search/search_graph.cc"
F_QUEUE = SB + "tracker/radix_heap_queue.h"
F_TRACK = SB + "tracker/queued_event_tracker.h"
F_CYC = SB + "tracker/cyclic.h"
F_VAR = SB + "flooder_matcher_interop/varying.h"
F_NODE = SB + "flooder/detector_node.cc"
F_RAND = "src/pymatching/rand/rand_gen.cc"

A_ENC = ["The LLVM IR is produced by clang 18 at -O1 from /repo's current sources; gcc/other optimisation levels are assumed to agree.",
         "Heap addresses are modelled as fresh (never reused) within a path; allocation never fails.",
         "iostream/locale calls and exception message contents are modelled as no-ops."]
A_QUEUE = ["Encodings marked 'contract event queue' replace the event queue by its contract (earliest first, most recent first among "
           "equals); the queue properties C09 and C10 discharge that contract on the real queue."]
A_MINED = ["Lattice layouts are fixed pseudo-random instances with one moving weight.", "Mined instances are fixed topologies (5-8 detectors, 7-12 edges) chosen for reaching rarely executed code; the weights named in "
           "the bound move, the others are fixed."]

B_FULL = "all syndromes unless noted, every weight symbolic in [0, 2^24]"
B_MS = "15 mined instances, every weight symbolic within +-1 of its base"
B_MB = "5 larger mined instances, alternate halves of the weights within +-1"
B_MW = "20 mined instances, every window of 3 consecutive edges with weights within +-24 of their base"
B_MSY = "7 mined instances, every syndrome, each single weight symbolic in [0,24]"
B_MH = "20 mined instances, 3 single weights (thorough: every one) within +-4 (thorough +-12)"


def dj(p, entry, bound, mode="b", time=120, **k):
    d = k.pop("defs", ())
    return Job("decode.cc", entry, mode=mode, time=time, bound=bound, defs=(f"-DPROP={p}",) + tuple(d), **k)


def camp(p, entries, sp=16, mode="b", win=1, time=60, **k):
    """the instances of harness/mined2.h"""
    n = {"campaign": "68 mined instances", "campaign_hist": "73 mined instances, two shots in sequence", "campaign_neg": "63 mined instances with weights of both signs"}
    d = (f"-DCSP={sp}", f"-DCWIN={win}") + tuple(k.pop("defs", ()))
    w = "every single weight" if win == 1 else f"every window of {win} weights"
    return [dj(p, e, f"{n[e]} (harness/mined2.h), {w} symbolic within +-{sp} of its base", mode=mode, time=time, defs=d, **k) for e in entries]


def fam(p, names, **k):
    """fully symbolic families; bounds depend on the family"""
    spec = {"k4": "K4, all four detectors fire", "cycle5": "5-cycle, four of five detectors fire", "tri_tail": "triangle with tail to the boundary, three fire",
            "cycle5b": "5-cycle with one boundary edge, all five fire"}
    return [dj(p, n, (spec.get(n, n + ", every syndrome") + "; " + k.get("wr", "weights symbolic in [0, 2^24]")), **{a: b for a, b in k.items() if a != "wr"}) for n in names]


B_LAT = ("%s lattice, 10 (thorough 40) layouts x 4 weight patterns, 4-10 detection events in shuffled order, one weight symbolic in [0,16] or [0,2^20]; "
         "oracle: shortest distances and a subset recursion over pairings")
B_DEEP = ("647 instances (harness/mined3.h) of 7-16 detectors and up to 16 detection events that reach nested blossoms up to four levels, shattering at every distance and branching trees; "
          "one weight symbolic within +-2 of its base (thorough: any weight, from 0 to base+12)")
LATS = {"planar4": "4x4 planar", "planar5": "5x5 planar", "torus4": "4x4 toric", "torus5": "5x5 toric", "strip": "2x9 planar", "ring": "24-ring"}


def lj(p, names, mode="b", time=120, **k):
    d = (f"-DPROP={p}",) + tuple(k.pop("defs", ()))
    return [Job("lattice.cc", n, mode=mode, time=time, bound=B_DEEP if n == "deep" else B_LAT % LATS[n], defs=d, **k) for n in names]


CROWDS = {"line100": "line of 100 detectors, every one fires", "line300": "line of 300 detectors, every one fires", "comps24": "24 components, up to three events each",
          "comps80": "80 components, up to three events each", "hub40": "40 detectors around a hub", "hub300": "300 detectors around a hub",
          "hist_comps": "components, three shots in sequence", "hist_line": "line, three shots in sequence"}


def crowd(p, names, mode="b", time=100, **k):
    """graphs with very many detection events; a few weights symbolic"""
    return [Job("crowd.cc", n, mode=mode, time=time, bound=CROWDS[n] + ", a few weights symbolic, the others fixed", defs=(f"-DPROP={p}",), **k) for n in names]


OBS = "observables shared between edges; "
def share(p, kind, names, **k):
    d = (f"-DOBSHARE={kind}",) + tuple(k.pop("defs", ()))
    return [dj(p, n, OBS + (B_MH if n == "mined_hist" else n + ", every syndrome, " + k.get("wr", "weights symbolic in [0, 2^24]")), defs=d, **{a: b for a, b in k.items() if a != "wr"}) for n in names]


P = {}


def prop(pid, title, statement, over, qtext, why, files, mech, jobs, outside, assumptions=(), note="", observe=None):
    P[pid] = dict(title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, jobs=jobs, outside=outside,
                  assumptions=list(assumptions) + A_ENC, note=note, observe=observe)


# ------------------------------------------------------------------------------------------------ decoding
prop("C01", "The reported solution weight is the minimum over all corrections",
     "For every matching graph and every syndrome that has a correction, the weight reported by decoding is exactly the smallest total edge "
     "weight of any set of edges whose boundary is the syndrome. Decoding always terminates and never rejects such a syndrome.",
     ["inputs"], "all graphs, all edge weights in the discretised range, all syndromes",
     "Optimality is a statement about every weight assignment and tie; the unit tests compare a few fixed codes with recorded weights.",
     [F_DEC, F_MWPM, F_FLOOD, F_TREE, F_REGION],
     [("decode_detection_events_for_up_to_64_observables", F_DEC), ("Mwpm::process_event", F_MWPM), ("GraphFlooder::run_until_next_mwpm_notification", F_FLOOD)],
     fam(1, ["pair", "tri", "k3_bdry1", "k3_bdry3", "chain3", "chain4", "cycle4", "cycle5", "tri_tail", "star4", "two_comp"]) +
     camp(1, ["campaign", "campaign_hist"]) + camp(1, ["campaign", "campaign_hist"], sp=6, win=2, thorough=True, time=900) + camp(1, ["campaign", "campaign_hist"], mode="a", thorough=True, time=600) +
     [dj(1, "mined_small", B_MS), dj(1, "mined_big", B_MB), dj(1, "mined_hist", B_MH, mode="a"),
      dj(1, "mined_synd", B_MSY, thorough=True, time=600), dj(1, "mined_synd", B_MSY, mode="a", thorough=True, time=900),
      dj(1, "mined_wide", B_MW, thorough=True, time=3600), dj(1, "mined_small", B_MS.replace("+-1", "+-2"), thorough=True, time=3600, defs=("-DSPREAD=2",)),
      ] + fam(1, ["k4"], time=200) + fam(1, ["chain5", "cycle5b"], thorough=True, time=1800) +
     lj(1, ["deep", "planar4", "planar5", "torus4", "torus5", "strip", "ring"]) +
     [Job("misc.cc", e, mode="a", defs=("-DWHAT=0",), bound="200-300 edge chains at the maximum weight, both boundary weights symbolic: the event clock passes 2^31") for e in ("long_single", "long_single_wide", "long_pair", "long_mid", "long_near")] +
     crowd(1, ["line100", "comps24", "hub40", "hub300"]) + crowd(1, ["line300", "comps80"], thorough=True, time=300) + crowd(1, ["hub300"], mode="a") + crowd(1, ["line100", "comps24"], mode="a", thorough=True, time=400) + lj(1, ["planar4", "torus4"], mode="a", thorough=True, time=300),
     "graphs with more than 8 detectors or 12 edges other than the listed lattices, weights above 2^24, more than three independent wide-range weights on the mined graphs",
     A_QUEUE + A_MINED)

prop("C02", "Predicted observables belong to a minimum-weight correction",
     "For every matching graph and every syndrome that has a correction, the logical observables predicted by decoding are those flipped by some "
     "minimum-weight set of edges whose boundary is the syndrome.",
     ["inputs"], "all graphs, weights, syndromes and observable assignments",
     "Tests compare predictions with recorded ones on fixed codes; a wrong path or a wrong parity on a rare blossom is not sampled.",
     [F_DEC, F_MWPM, F_FLOOD, SB + "flooder_matcher_interop/compressed_edge.h"],
     [("Mwpm::shatter_blossom_and_extract_matches", F_MWPM), ("Mwpm::extract_paths_from_match_edges", F_MWPM), ("GraphFlooder::do_region_arriving_at_empty_detector_node", F_FLOOD)],
     fam(2, ["pair", "tri", "k3_bdry1", "k3_bdry3", "chain3", "chain4", "cycle4", "cycle5", "tri_tail", "star4", "two_comp"]) +
     camp(2, ["campaign", "campaign_hist"]) + camp(2, ["campaign", "campaign_hist"], sp=6, win=2, thorough=True, time=900) + camp(2, ["campaign", "campaign_hist"], mode="a", thorough=True, time=600) +
     [dj(2, "mined_small", B_MS), dj(2, "mined_big", B_MB), dj(2, "mined_hist", B_MH, mode="a"), dj(2, "mined_synd", B_MSY, thorough=True, time=600),
      dj(2, "mined_synd", B_MSY, mode="a", thorough=True, time=900),
      dj(2, "mined_wide", B_MW, thorough=True, time=3600), dj(2, "mined_small", B_MS.replace("+-1", "+-2"), thorough=True, time=3600, defs=("-DSPREAD=2",))] +
     fam(2, ["k4"], time=200) + fam(2, ["chain5", "cycle5b"], thorough=True, time=1800) +
     share(2, 1, ["tri", "k3_bdry1", "cycle4", "mined_hist"]) + crowd(2, ["line100", "comps24"]) + crowd(2, ["hub40"], thorough=True, time=200) +
     [Job("misc.cc", "width_chain", mode="b", bound="3-chain, 13 numbers of observables from 1 to 129, weights symbolic in [-(2^24-1), 2^24-1]")] + lj(2, ["deep", "planar4", "planar5", "torus4", "torus5", "strip", "ring"]) + lj(2, ["planar4", "torus4"], mode="a", thorough=True, time=300),
     "as C01; each edge flips an observable of its own, so that the prediction identifies the correction, except in the jobs with shared observables",
     A_QUEUE + A_MINED)

prop("C03", "Decoding to edges returns a minimum-weight edge set with that syndrome",
     "Decoding to edges returns edges of the graph, each at most once, whose combined boundary is exactly the given syndrome and whose total weight "
     "is the minimum over all such edge sets. Decoding the same shot again gives a valid answer again.",
     ["inputs", "histories"], "all graphs, weights and syndromes",
     "Tests check one or two fixed surface-code samples.",
     [F_DEC, F_MWPM, F_SEARCH, F_SGRAPH],
     [("decode_detection_events_to_edges", F_DEC), ("SearchFlooder::iter_edges_tracing_back_from_node", F_SEARCH)],
     fam(3, ["pair", "tri", "k3_bdry1", "k3_bdry3", "chain3", "chain4", "cycle4", "cycle5", "tri_tail", "two_comp"]) +
     camp(3, ["campaign", "campaign_hist"]) + camp(3, ["campaign", "campaign_hist"], sp=6, win=2, thorough=True, time=900) + camp(3, ["campaign", "campaign_hist"], mode="a", thorough=True, time=600) +
     [dj(3, "mined_small", B_MS, time=150), dj(3, "mined_big", B_MB), dj(3, "mined_hist", B_MH, mode="a"),
      dj(3, "mined_synd", B_MSY, thorough=True, time=900), dj(3, "mined_wide", B_MW, thorough=True, time=3600)] +
     fam(3, ["star4", "k4"], thorough=True, time=900) + fam(3, ["chain5", "cycle5b"], thorough=True, time=1800) +
     crowd(3, ["line100", "comps24", "hub40"]) +
     lj(3, ["deep", "planar4", "planar5", "torus4", "torus5", "strip", "ring"]) +
     [Job("misc.cc", e, mode="a", defs=("-DWHAT=1",), bound="200-300 edge chains at the maximum weight, both boundary weights symbolic: the event clock passes 2^31") for e in ("long_single", "long_single_wide", "long_pair")] + lj(3, ["planar4", "torus4"], mode="a", thorough=True, time=300),
     "as C01", A_QUEUE + A_MINED)

prop("C04", "Decoding to matched events pairs every detection event exactly once",
     "Decoding to matched detection events returns pairs in which every detection event of the shot occurs exactly once (paired with another "
     "detection event or with the boundary), no other node occurs, each pair is connected, and the pairs' total length equals the minimum correction weight.",
     ["inputs"], "all graphs with non-negative weights, all syndromes",
     "Tests look at a handful of fixed repetition-code shots.",
     [F_DEC, F_MWPM], [("decode_detection_events_to_match_edges", F_DEC), ("Mwpm::shatter_blossom_and_extract_match_edges", F_MWPM)],
     fam(4, ["pair", "tri", "k3_bdry1", "k3_bdry3", "chain3", "chain4", "cycle4", "cycle5", "tri_tail", "star4", "two_comp"]) +
     camp(4, ["campaign", "campaign_hist"]) + camp(4, ["campaign", "campaign_hist"], sp=6, win=2, thorough=True, time=900) + camp(4, ["campaign", "campaign_hist"], mode="a", thorough=True, time=600) +
     [dj(4, "mined_small", B_MS), dj(4, "mined_big", B_MB), dj(4, "mined_hist", B_MH, mode="a"), dj(4, "mined_synd", B_MSY, thorough=True, time=900),
      dj(4, "mined_wide", B_MW, thorough=True, time=3600)] + fam(4, ["k4"], thorough=True, time=600) +
     crowd(4, ["line100", "comps24"]) +
     lj(4, ["deep", "planar4", "planar5", "torus4", "torus5", "strip", "ring"]) + lj(4, ["planar4", "torus4"], mode="a", thorough=True, time=300),
     "as C01", A_QUEUE + A_MINED)

prop("C05", "A used decoder answers every shot exactly as a fresh one would",
     "Whatever shots a decoder has already processed, by whichever decoding function, successfully or with an error, the next shot gets the same "
     "acceptance, weight, predicted observables and edges as from a newly built decoder of the same graph.",
     ["histories", "inputs"], "all earlier shots and decoding functions, all graphs, weights and syndromes",
     "Tests decode recorded shots in sequence but never compare against a fresh decoder, and never after a rejected shot.",
     [F_DEC, F_MWPM, F_FLOOD, F_REGION, F_NODE], [("Mwpm::reset", F_MWPM), ("DetectorNode::reset", F_NODE), ("GraphFillRegion::cleanup_shell_area", F_REGION)],
     fam(5, ["pair", "tri"]) + [dj(5, "mined_hist", B_MH), dj(5, "mined_hist", B_MH, mode="a")] +
     camp(5, ["campaign_hist"], sp=4) + camp(5, ["campaign", "campaign_hist"], sp=16, thorough=True, time=900) +
     fam(5, ["chain3", "k3_bdry1"], thorough=True, time=1200) + [dj(5, "mined_synd", B_MSY, thorough=True, time=2400)] +
     crowd(5, ["hist_comps", "hist_line"]) +
     lj(5, ["deep", "planar4", "planar5", "torus4", "torus5", "strip", "ring"]) + lj(5, ["planar4", "torus4"], mode="a", thorough=True, time=300),
     "histories longer than one earlier shot per path (the pair of shots is arbitrary, so longer histories are covered when a shot leaves no trace)",
     A_QUEUE + A_MINED)

prop("C06", "A shot is rejected exactly when it has no correction, leaving the decoder usable",
     "Every decoding function reports an error exactly when no set of edges produces the syndrome, or when a detection event lies outside the graph. "
     "After a rejected shot the decoder decodes later shots correctly.",
     ["inputs", "histories", "fault_sequences"], "all graphs, weights, syndromes including infeasible and out-of-range ones",
     "Tests contain a couple of infeasible syndromes and no further decoding afterwards.",
     [F_DEC, F_FLOOD], [("process_timeline_until_completion", F_DEC)],
     camp(6, ["campaign_hist"], sp=2) + fam(6, ["pair", "tri", "two_comp"], time=150) + fam(6, ["pair"], defs=("-DWLO=-16777215", "-DWHI=16777215"), wr="weights symbolic in [-(2^24-1), 2^24-1]") + [dj(6, "mined_hist", B_MH), dj(6, "mined_hist", B_MH, mode="a")] +
     fam(6, ["chain3", "k3_bdry1", "cycle4"], thorough=True, time=1200) + [dj(6, "mined_synd", B_MSY, thorough=True, time=2400)],
     "detection events repeated within one shot (not producible by the API), more than one rejected shot per path", A_QUEUE + A_MINED)

NEG = ("-DWLO=-16777215", "-DWHI=16777215")
prop("C07", "Negative edge weights are handled exactly",
     "With edge weights of any sign, every decoding function still minimises the signed total weight over all corrections of the given syndrome, and "
     "the different decoding functions agree on weight and observables. Decoding to matched events is refused exactly when the graph has a negative weight.",
     ["inputs", "configurations"], "all graphs, weights of either sign, syndromes",
     "Tests contain a few fixed negative-weight graphs.",
     [F_DEC, F_GRAPH, F_FLOOD, F_SGRAPH], [("GraphFlooder::sync_negative_weight_observables_and_detection_events", F_FLOOD), ("MatchingGraph::add_edge", F_GRAPH),
                                         ("decode_detection_events_to_edges", F_DEC)],
     fam(7, ["pair", "tri", "k3_bdry1", "chain3", "cycle4"], defs=NEG, wr="weights symbolic in [-(2^24-1), 2^24-1]") +
     camp(7, ["campaign_neg"], sp=8, defs=NEG) + camp(7, ["campaign_neg"], sp=6, win=2, defs=NEG, thorough=True, time=900) + camp(7, ["campaign_neg"], mode="a", defs=NEG, thorough=True, time=600) +
     [dj(7, "mined_hist", B_MH, defs=NEG), dj(7, "mined_hist", B_MH, defs=NEG, mode="a"),
      dj(7, "mined_synd", "7 mined instances, every syndrome, each single weight symbolic in [-12,24]", defs=NEG, thorough=True, time=1200)] +
     share(7, 2, ["pair", "tri", "k3_bdry1", "chain3"], defs=NEG, wr="weights symbolic in [-(2^24-1), 2^24-1]") + share(7, 2, ["mined_hist"], defs=NEG) +
     crowd(7, ["line100", "comps24"]) +
     [Job("lattice.cc", "deep", mode="b", time=150, bound=B_DEEP.replace("one weight", "some of the other weights negated (with the syndrome changed accordingly), one weight of either sign").replace("within +-2 of its base", "in [-4, 4]").replace("from 0 to", "from -24 to"), defs=("-DPROP=7",)),
      Job("misc.cc", "width_chain", mode="b", bound="3-chain, 13 numbers of observables from 1 to 129, weights symbolic in [-(2^24-1), 2^24-1]"),
      Job("ug.cc", "bn_pair", mode="b", bound="2 detectors with boundary nodes, weights symbolic in [-(2^24-1), 2^24-1]", defs=NEG)] +
     fam(7, ["two_comp", "chain4", "star4", "k3_bdry3"], defs=NEG, wr="weights symbolic in [-(2^24-1), 2^24-1]", thorough=True, time=1800),
     "as C01", A_QUEUE + A_MINED)

prop("C08", "More than 64 observables are predicted as correctly as few",
     "On a graph with more than 64 observables decoding accepts the same shots, reports the same weight and predicts the observables of a "
     "minimum-weight correction, with every entry 0 or 1 and no observable flipped that the correction does not carry.",
     ["inputs", "configurations"], "all graphs with more than 64 observables, weights, syndromes",
     "Tests with many observables use one repetition code.",
     [F_DEC, F_SEARCH], [("decode_detection_events", F_DEC), ("Mwpm::extract_paths_from_match_edges", F_MWPM)],
     camp(8, ["campaign", "campaign_hist"], sp=6) + camp(8, ["campaign_neg"], sp=6, defs=NEG) + camp(8, ["campaign", "campaign_hist"], sp=6, win=2, thorough=True, time=900) +
     fam(8, ["pair", "tri", "k3_bdry1", "chain3", "chain4", "cycle4", "cycle5", "two_comp"]) + [dj(8, "mined_hist", B_MH), dj(8, "mined_hist", B_MH, mode="a"), dj(8, "mined_big", B_MB)] +
     fam(8, ["k3_bdry3"], time=150) + share(8, 3, ["pair", "tri", "chain3"], defs=NEG, wr="weights symbolic in [-(2^24-1), 2^24-1]") + fam(8, ["pair", "tri", "chain3"], defs=NEG, wr="weights symbolic in [-(2^24-1), 2^24-1]") + [dj(8, "mined_small", B_MS, thorough=True, time=900), dj(8, "mined_synd", B_MSY, thorough=True, time=900)] +
     fam(8, ["star4", "k4"], thorough=True, time=900) +
     crowd(8, ["line100", "comps24", "hub40"]) +
     [Job("misc.cc", "width_chain", mode="b", bound="3-chain, 13 numbers of observables from 1 to 129, weights symbolic in [-(2^24-1), 2^24-1]")] + lj(8, ["deep", "planar4", "planar5", "torus4", "torus5", "strip", "ring"]) + lj(8, ["planar4", "torus4"], mode="a", thorough=True, time=300),
     "as C01; 70 observables", A_QUEUE + A_MINED)

prop("C20", "Decoding the same shots again uses no more memory",
     "Once a set of shots has been decoded, decoding the same shots again, successfully or with an error and by any decoding function, leaves no more "
     "memory in use than before.",
     ["histories", "inputs"], "all graphs, weights, shots and decoding functions",
     "No test measures memory.",
     [F_MWPM, F_DEC, SB + "arena.h"], [("Arena", SB + "arena.h"), ("Mwpm::shatter_blossom_and_extract_matches", F_MWPM), ("Mwpm::reset", F_MWPM)],
     camp(20, ["campaign_hist"], sp=2) +
     fam(20, ["pair", "tri"]) + crowd(20, ["hist_comps", "hist_line"]) + [dj(20, "mined_hist", B_MH), dj(20, "mined_hist", B_MH, mode="a")] + fam(20, ["chain3", "two_comp", "k3_bdry1"], thorough=True, time=1200) +
     [dj(20, "mined_synd", B_MSY, thorough=True, time=2400)],
     "sequences of more than ten shots", A_QUEUE + A_MINED)


# ------------------------------------------------------------------------------------------------ event machinery
def tj(entry, bound, **k):
    return Job("tracker.cc", entry, mode="a", bound=bound, **k)


prop("C09", "The event queue releases events in time order and loses none",
     "The event queue returns every pending event exactly once, in order of time, whatever order they were inserted in and however far its clock has "
     "advanced or wrapped, and reports being empty exactly when nothing is pending. Clearing or resetting it forgets everything.",
     ["inputs", "histories"], "all sequences of insertions, removals and resets, all clock positions, delays below half the clock cycle",
     "The unit tests insert a few hand-picked and random times.",
     [F_QUEUE, F_CYC], [("radix_heap_queue::enqueue", F_QUEUE), ("radix_heap_queue::dequeue", F_QUEUE)],
     [tj("queue2", "2 events, 9 clock positions around powers of two and the wrap, delays 0..2^31-1, bit-vector arithmetic", bv=True),
      tj("queue3", "3 events, delays 0..40 (thorough 2^31-1)"), tj("queue3_far", "3 events with far-apart delays"),
      tj("queue_mix", "interleaved insertions and removals, delays 0..8 (thorough 0..40)", time=150), tj("queue_reset", "clear/reset between uses", time=100)],
     "more than 5 simultaneous events, clock positions other than those listed", [])
prop("C10", "A scheduled event is delivered on time, never lost and never delivered twice",
     "For every sequence of reschedulings and cancellations of a node's next event, an event is acted upon exactly at the most recently desired time, "
     "stale queue entries are ignored, and a desired event is never lost.",
     ["histories", "inputs"], "all interleavings of wishes, cancellations and queue removals, all times below half the clock cycle",
     "The unit test walks through one hand-written sequence.",
     [F_TRACK], [("QueuedEventTracker::set_desired_event", F_TRACK), ("QueuedEventTracker::dequeue_decision", F_TRACK)],
     [tj("tracker4", "4 operations, times 0..6 ahead"), tj("tracker5", "5 operations, times 0..6 ahead"), tj("tracker6", "6 operations, times 0..3 (thorough 6) ahead"),
      tj("tracker_two", "two trackers sharing the queue"), tj("tracker_far", "3 operations, times 0..2^31-1 ahead", thorough=True, time=1800)],
     "longer operation sequences, times beyond the stated horizon", [])
prop("C11", "Cyclic time comparison agrees with true time order within half a cycle",
     "For any two times less than half a clock cycle apart, comparison and widening of the wrapped times give the answer that the unwrapped times give, for every "
     "position of the clock.",
     ["inputs"], "all clock positions and all offsets below half a cycle, for 8-, 16- and 32-bit clocks",
     "Tests sample a few values per width.",
     [F_CYC], [("cyclic::operator<", F_CYC), ("cyclic::widen_from_nearby_reference", F_CYC)],
     [tj(e, "full range of the clock type", workers=1) for e in ("cyclic8", "cyclic16", "cyclic32", "widen8", "widen16", "widen32", "order32")],
     "none within the stated widths; 64-bit clocks are not used by the library", [])
prop("C12", "Varying radii report exact values and collision times",
     "A growing, shrinking or frozen radius evaluates to its exact value at every time, switching its growth direction never changes its current value, and the "
     "computed times of reaching zero and of two radii meeting are exact.",
     ["inputs", "histories"], "all radii, times and growth directions in the representable range",
     "Tests check a few literal values.",
     [F_VAR], [("Varying::then_growing_at_time", F_VAR), ("Varying::time_of_x_intercept_when_added_to", F_VAR)],
     [tj("varying32", "values within 2^25", workers=1), tj("varying64", "values within 2^45", workers=1)],
     "radii or times beyond the stated range", [])


# ------------------------------------------------------------------------------------------------ user-facing graph
def uj(file, entry, bound, mode="b", **k):
    return Job(file, entry, mode=mode, bound=bound, **k)


WS = "weights symbolic in [-(2^24-1), 2^24-1]"
S_SP = {"pair": "2 detectors", "tri": "triangle", "chain3": "3-chain", "two_comp": "two components", "k3_bdry1": "triangle with a boundary edge", "cycle4": "4-cycle", "star4": "star",
        "cycle5b": "5-cycle with boundary edge", "k4": "K4", "mined_path": "mined 5-8 detector instances, 3 weights symbolic"}


def sj(entry, **k):
    b = S_SP.get(entry.replace("_ug", ""), entry)
    return uj("search.cc", entry, b + ", every pair of endpoints (and the boundary), " + ("through the user graph, " if entry.endswith("_ug") else "") + "weights symbolic", **k)


prop("C13", "The shortest-path query returns a shortest path",
     "For any two nodes (or a node and the boundary) the path reported between them consists of edges of the graph joined end to end from the first node to the second, and its "
     "total weight magnitude is the minimum over all such paths. A query with no connecting path is refused, and queries do not change later answers.",
     ["inputs", "histories"], "all graphs, weights and pairs of nodes",
     "Tests query a few node pairs of fixed graphs.",
     [F_SEARCH, F_UG, F_SGRAPH], [("UserGraph::get_nodes_on_shortest_path_from_source", F_UG), ("SearchFlooder::run_until_collision", F_SEARCH),
                                  ("SearchFlooder::iter_edges_tracing_back_from_node", F_SEARCH)],
     [sj(e) for e in ("pair", "pair_ug", "tri", "tri_ug", "chain3", "chain3_ug", "two_comp", "two_comp_ug", "k3_bdry1", "k3_bdry1_ug", "cycle4", "cycle4_ug", "star4",
                      "star4_ug", "cycle5b", "cycle5b_ug", "k4", "k4_ug", "mined_path")] +
     [Job("misc.cc", e, mode="a", defs=("-DWHAT=2",), bound="200-300 edge chains at the maximum weight, both boundary weights symbolic: the event clock passes 2^31") for e in ("long_single", "long_pair", "long_mid", "long_near")] +
     [sj("mined_path", mode="a", thorough=True, time=900)],
     "graphs with more than 8 detectors; parallel boundary edges created through boundary nodes with negative weights", A_QUEUE + A_MINED)

prop("C14", "Boundary nodes behave exactly like boundary edges",
     "Marking nodes as boundary gives the same decoding as replacing every edge to such a node by a boundary edge: the same shots are accepted, with the same minimum weight and a "
     "minimum-weight correction; edges between boundary nodes and detection events on boundary nodes have no effect, and of several boundary edges of a node the lightest counts.",
     ["inputs", "configurations"], "all graphs, sets of boundary nodes, non-negative weights and syndromes",
     "Tests cover a few fixed repetition codes with a boundary node.",
     [F_UG, F_DEC, F_GRAPH], [("UserGraph::to_matching_graph", F_UG), ("UserGraph::set_boundary", F_UG), ("UserGraph::is_boundary_node", F_UG)],
     [uj("ug.cc", e, b) for e, b in (("bn_single", "one detector"), ("bn_pair", "two detectors"), ("bn_chain3", "3-chain"), ("bn_tri", "triangle"), ("bn_two", "two boundary nodes joined"),
                                     ("bn_parallel", "several boundary nodes on one detector"))] + [uj("ug.cc", "bn_single", "one detector", mode="a")],
     "negative boundary edges that coincide after merging; more than 3 detectors", A_QUEUE)

prop("C15", "Discretised weights keep the order and proportions of the given weights",
     "Real edge weights are turned into decoder weights by one common factor: integral weights within range are represented exactly, other weights to within half a unit of rounding, "
     "the largest uses the full range, and the weight reported for a solution is the total real weight of its correction within that rounding.",
     ["inputs"], "all real weights", "Tests convert a few literal weights.",
     [F_UG, F_DEC], [("UserGraph::get_edge_weight_normalising_constant", F_UG), ("UserGraph::to_matching_or_search_graph_helper", F_UGH)],
     [uj("ug.cc", e, b) for e, b in (("disc_int", "integral weights up to 2^24-1"), ("disc_grid", "fractional weights on a grid"), ("disc_dyadic", "weights k/2^s with symbolic k"),
                                     ("disc_choice", "weights of widely different magnitude"))] + [uj("ug.cc", "disc_dyadic", "weights k/2^s with symbolic k", mode="a"),
      uj("corr.cc", "tp_grid", "3 detectors, integral and other weights and implied weights from a grid")],
     "weights that are not dyadic rationals within the stated range", A_QUEUE)

prop("C16", "Parallel edges are merged as the chosen strategy says",
     "Adding an edge that already exists keeps the smaller or the first weight, replaces the edge, combines the two as independent mechanisms, or is refused, exactly as the chosen strategy says, "
     "and the edge otherwise keeps its end points; the graph decodes accordingly.",
     ["inputs", "configurations"], "all weights, error probabilities, strategies and orders of adding",
     "Tests merge a few literal weights.",
     [F_UG], [("UserGraph::add_or_merge_edge", F_UG), ("UserGraph::handle_merging_parallel_edges", F_UG), ("merge_weights", F_UG)],
     [uj("ug.cc", "merge_pick", "two or three parallel edges, symbolic integral weights, every strategy"), uj("ug.cc", "merge_independent", "independent combination over a grid of log-odds weights"),
      uj("ug.cc", "merge_pick", "as before, real event queue", mode="a", thorough=True, time=300)],
     "independent combination of weights outside the grid (exp and log cannot be encoded)", A_QUEUE)

prop("C17", "Changes to the graph take effect in later decodings",
     "After edges are added or merged or the boundary is changed, later decodings use the changed graph exactly as if it had been built that way from the start, whatever was decoded before.",
     ["histories", "inputs"], "all graphs, changes, weights and syndromes before and after",
     "Tests build graphs once before decoding.",
     [F_UG], [("UserGraph::get_mwpm", F_UG), ("UserGraph::add_or_merge_edge", F_UG), ("UserGraph::set_boundary", F_UG)],
     [uj("ug.cc", "change", "3 detectors, edges added or merged between decodings"), uj("ug.cc", "boundary_moves", "boundary set changed between decodings"),
      uj("ug.cc", "change_merge", "2 detectors, a parallel edge merged between decodings by any strategy, weights from a grid")],
     "more than two changes in sequence", A_QUEUE)

prop("C18", "Two-pass decoding reweights by the first pass and restores the weights",
     "Decoding with correlations first decodes plainly, lowers each edge's weight to the smallest weight implied by the edges used in that first correction, returns a minimum-weight "
     "correction for the lowered weights, and leaves the decoder's weights as they were for every later shot, with boundary edges and boundary nodes alike.",
     ["inputs", "histories"], "all graphs with non-negative weights, all implied weights and syndromes",
     "Tests decode a few fixed circuits and compare with recorded predictions.",
     [F_DEC, F_GRAPH, F_SGRAPH], [("decode_detection_events", F_DEC), ("MatchingGraph::reweight_for_edges", F_GRAPH)],
     [uj("corr.cc", "tp_pair1", "2 detectors, one implied weight, every syndrome, all weights symbolic in [0,2^24-1]"),
      uj("corr.cc", "tp_pair2", "2 detectors, two implied weights"), uj("corr.cc", "tp_two1", "two components, one implied weight"),
      uj("corr.cc", "tp_node1", "2 detectors, one or two boundary nodes, one implied weight"), uj("corr.cc", "tp_ignored", "2 detectors, implied weights of self-loops and of edges between boundary nodes"),
      uj("corr.cc", "tp_grid", "3 detectors, integral and other weights and implied weights from a grid"),
      uj("corr.cc", "tp_chain1", "3-chain, one implied weight", time=150),
      uj("corr.cc", "tp_tri1", "triangle, one implied weight", thorough=True, time=900), uj("corr.cc", "tp_cycle1", "4-cycle, one implied weight", thorough=True, time=900),
      uj("corr.cc", "tp_chain2", "3-chain, two implied weights", thorough=True, time=1800), uj("corr.cc", "tp_rules3", "three implied weights", thorough=True, time=1800)],
     "more than three correlation rules; graphs of more than 4 detectors", A_QUEUE)

prop("C19", "A detector error model becomes the graph it describes",
     "Loading a detector error model gives a graph with exactly one edge per pair of detectors (or detector and boundary) appearing in its errors and components, with independent mechanisms on the same "
     "edge combined, the log-odds weight of the combined probability, and the logical observables of the mechanism; errors with more than two detectors are left out.",
     ["inputs"], "all detector error models", "Tests load a few literal models.",
     [F_UG, F_UGH], [("detector_error_model_to_user_graph", F_UG), ("iter_dem_instructions_include_correlations", F_UGH)],
     [uj("corr.cc", "dem_plain", "three instructions with up to two components of up to three detectors, probabilities from a grid", reach=("end", "decoded")),
      uj("corr.cc", "dem_scales", "two or three parallel mechanisms, probabilities from 1e-7 to 0.9, with and without correlations")],
     "models of more than three instructions; probabilities outside the grid (log cannot be encoded); the parsing of model files is stim's", A_QUEUE)

prop("C21", "Correlated models give each edge the conditional probabilities of its partners",
     "Loading a detector error model with correlations implies, for every pair of edges appearing in a common error, the weight of the conditional probability of one given the other, capped at one half, "
     "counts every mechanism of an edge once in the edge's own probability, and refuses models it cannot represent.",
     ["inputs"], "all detector error models", "Tests compare a few literal models.",
     [F_UGH, F_UG], [("iter_dem_instructions_include_correlations", F_UGH), ("UserGraph::populate_implied_edge_weights", F_UG)],
     [uj("corr.cc", "dem_corr_shapes", "one error of up to three components of any shape", reach=("end",)), uj("corr.cc", "dem_corr_repeat", "up to three errors of the same two components next to each alone, probabilities from a grid"), uj("corr.cc", "dem_corr_shared", "errors sharing edges, probabilities from a grid"),
      uj("corr.cc", "dem_scales", "two or three parallel mechanisms, probabilities from 1e-7 to 0.9, with and without correlations")],
     "models of more than three errors; probabilities outside the grid (log cannot be encoded)", A_QUEUE)

prop("C22", "Mask and array predictions agree for every number of observables",
     "Whatever the number of observables (1 to 64 as a mask, any number as an array), entry i of the prediction is observable i: mask and array convert into each other without loss, more than 64 observables are "
     "refused as a mask, nothing is written beyond the array, and results combine by exclusive or of the observables and addition of the weights.",
     ["inputs", "configurations"], "all masks, arrays, numbers of observables, graphs with weights of either sign, syndromes",
     "Tests convert one or two literal masks and never sit at the 64-observable limit.",
     [F_DEC, F_MWPM], [("fill_bit_vector_from_obs_mask", F_DEC), ("bit_vector_to_obs_mask", F_DEC), ("decode_detection_events", F_DEC), ("MatchingResult::operator+", F_MWPM)],
     [uj("misc.cc", "obs_bits", "every 64-bit mask, 0 to 66 observables", mode="a"), uj("misc.cc", "result_sum", "63-bit masks, weights within 2^40, arrays of up to 5 entries", mode="a"),
      uj("misc.cc", "width_pair", "2 detectors, 13 numbers of observables from 1 to 129, weights symbolic in [0, 2^24-1]"),
      uj("misc.cc", "width_chain", "3-chain, weights symbolic in [-(2^24-1), 2^24-1]"),
      uj("misc.cc", "width_tri", "triangle, weights symbolic in [-(2^24-1), 2^24-1]", thorough=True, time=600)],
     "graphs of more than 3 detectors; numbers of observables other than those listed", A_QUEUE)

prop("C23", "Sampled noise follows the edges' error probabilities",
     "Sampling noise flips each edge independently with its own error probability, returns exactly the observables and the syndrome of the flipped edges (boundary nodes never fire), and returns nothing when some edge "
     "has no valid probability.",
     ["inputs"], "all graphs, error probabilities and random draws",
     "Tests use probabilities 0 and 1 only.",
     [F_UG], [("UserGraph::add_noise", F_UG)],
     [uj("ov_noise.cc", e, b + ", probabilities k/8 and draws (2k+1)/16 symbolic", mode="a")
      for e, b in (("noise_one", "one edge"), ("noise_two", "two edges"), ("noise_three", "three edges"), ("noise_bnode", "triangle with a boundary node"), ("noise_bnodes", "path with two boundary nodes"), ("noise_missing", "three edges, one without a probability"), ("noise_zero", "three edges, probabilities 0 or 1, every draw 0"))],
     "probabilities other than eighths; the quality of the random source (std::mt19937) itself",
     ["pm::rand_float is replaced by a source whose draws are solver variables; draws are independent and uniform by assumption."])

NEGS = ("-DPROP=7", "-DWLO=-4", "-DWHI=6")
def mj(file, entry, bound, defs=NEGS, **k):
    return Job(file, entry, mode="u", bound=bound, defs=defs, ubonly=True, **k)


prop("C24", "No input makes the library read or write out of bounds or overflow",
     "No graph, weight within the accepted range, syndrome, sequence of decodings (including rejected ones), shortest-path query, boundary or detector error model makes the library access memory it does not own, use "
     "freed memory, or perform undefined arithmetic.",
     ["inputs", "histories"], "all graphs, weights, syndromes, queries and histories",
     "Tests run few inputs and no sanitizer.",
     [F_DEC, F_MWPM, F_FLOOD, F_TREE, F_REGION, F_SEARCH, F_UG, F_QUEUE, F_CYC], [("decode_detection_events", F_DEC), ("radix_heap_queue::enqueue", F_QUEUE), ("Arena", SB + "arena.h")],
     [mj("decode.cc", e, e + ", every syndrome, every decoding function, weights symbolic in [-4,6]") for e in ("pair", "tri", "chain3")] +
     [mj("decode.cc", e, e + ", two shots by any decoding functions, weights symbolic in [-4,6]", defs=("-DPROP=5", "-DWLO=-4", "-DWHI=6"), time=40) for e in ("pair", "tri")] +
     [mj("decode.cc", "pair", "2 detectors, full range", defs=("-DPROP=7",) + NEG, thorough=True, time=600),
      mj("decode.cc", "campaign", "68 mined instances (harness/mined2.h), every single weight symbolic within +-4 of its base", defs=("-DPROP=3",)),
      mj("decode.cc", "campaign_hist", "73 mined instances (harness/mined2.h), every single weight symbolic within +-4 of its base, 70 observables", defs=("-DPROP=8",)),
      mj("decode.cc", "mined_hist", B_MH, defs=("-DPROP=5",)), mj("decode.cc", "mined_hist", B_MH, defs=("-DPROP=8",)), mj("decode.cc", "mined_hist", B_MH, defs=("-DPROP=6",)),
      mj("lattice.cc", "deep", B_DEEP, defs=("-DPROP=3",)),
      mj("lattice.cc", "planar4", B_LAT % LATS["planar4"], defs=("-DPROP=3",)), mj("lattice.cc", "torus4", B_LAT % LATS["torus4"], defs=("-DPROP=8",)),
      mj("crowd.cc", "comps24", CROWDS["comps24"], defs=("-DPROP=3",), time=40), mj("crowd.cc", "hub300", CROWDS["hub300"], defs=("-DPROP=8",), time=40),
      mj("search.cc", "tri_ug", "triangle, weights in [-4,6]"), mj("search.cc", "k3_bdry1", "triangle with boundary edge, weights in [-4,6]"),
      mj("corr.cc", "tp_pair1", "two-pass decoding on 2 detectors, weights in [0,6]", defs=("-DWLO=0", "-DWHI=6")),
      mj("ug.cc", "bn_pair", "boundary nodes, weights in [-4,6]"), mj("ug.cc", "bn_parallel", "several boundary nodes, weights in [-4,6]"),
      mj("ug.cc", "merge_pick", "parallel edges, weights in [-4,6]"), mj("ug.cc", "boundary_moves", "boundary changes, weights in [0,2]", defs=("-DWLO=0", "-DWHI=2"), time=60),
      mj("misc.cc", "long_single", "200-edge chain at the maximum weight"), mj("misc.cc", "long_pair", "152-edge chain at the maximum weight"),
      mj("corr.cc", "dem_plain", "detector error models as in C19"), mj("corr.cc", "dem_corr_shapes", "detector error models as in C21"),
      mj("decode.cc", "pair", "rejected shots and out-of-range detection events, weights in [-4,6]", defs=("-DPROP=6", "-DWLO=-4", "-DWHI=6")),
      mj("py.cc", "cm_faults", "check matrices as in C25"), mj("py.cc", "cm_repeat", "check matrices as in C25"), mj("py.cc", "cm_malformed", "check matrices as in C25"),
      mj("py.cc", "batch_three", "batches as in C26"), mj("py.cc", "batch_bnode", "batches as in C26"), mj("py.cc", "forms_chain", "result forms as in C29"),
      mj("cli.cc", "predict_two", "command line as in C27"), mj("cli.cc", "count_two", "command line as in C27"),
      mj("ov_noise.cc", "noise_three", "noise sampling as in C23"),
      mj("decode.cc", "chain3", "two shots, weights in [-4,6]", defs=("-DPROP=5", "-DWLO=-4", "-DWHI=6"), time=900, thorough=True),
      mj("decode.cc", "mined_synd", B_MSY, defs=("-DPROP=5",), time=1800, thorough=True),
      mj("ug.cc", "change", "changes between decodings, weights in [-4,6]", time=900, thorough=True)],
     "as the harnesses' bounds; leaks (see C20); pointer misalignment", A_MINED)
F_PYB = SB + "driver/user_graph.pybind.cc"
F_MAIN = SB + "driver/namespaced_main.cc"
A_PY = ["pybind11 and NumPy are replaced by a stand-in that keeps arrays, tuples and dictionaries as plain values; conversions that real pybind11 performs (dtype casts, contiguity) are not modelled."]
A_STIM = ["Stim (parsing of models, shot files and arguments) is replaced by a stand-in that hands over the model and shots of the harness."]
WSY = "weights symbolic in [-(2^24-1), 2^24-1]"

prop("C25", "A check matrix becomes the graph it describes",
     "Loading a sparse check matrix gives one edge per column: between the two rows of its ones, or from its single row to the boundary (a virtual boundary or one boundary node), with the column's weight, error probability "
     "and fault ids (the column index, or the rows of the column in the faults matrix); repetitions copy the graph and join consecutive copies by timelike edges. Parallel columns are merged as the strategy says; "
     "malformed matrices and columns with more than two ones are refused.",
     ["inputs", "configurations"], "all sparse matrices, weights, probabilities, faults matrices, strategies and numbers of repetitions",
     "The C++ tests do not build the module; the Python tests load a few literal matrices.",
     [F_PYB, F_UG], [("pybind_user_graph_methods", F_PYB), ("sparse_column_check_matrix_to_matching_graph", F_PYB)],
     [uj("py.cc", e, b + ", every column pattern, four strategies, both kinds of boundary, " + WSY, defs=NEG)
      for e, b in (("cm_columns", "3 rows, 2 columns"), ("cm_parallel", "2 rows, 3 columns, rows stored in either order"), ("cm_faults", "2 rows, 3 columns, a 4-row faults matrix"),
                   ("cm_repeat", "2 rows, 2 columns, 3 repetitions, faults matrix"), ("cm_repeat3", "3 rows, 2 columns, 2 repetitions"),
                   ("cm_layout", "2 rows, 2 columns, 2 repetitions, weights and probabilities that are every second entry of larger arrays"))] +
     [uj("py.cc", "cm_malformed", "a 2x2 matrix with a symbolic stored value or one of six kinds of inconsistent sizes"),
      uj("py.cc", "cm_wide", "4 rows, 3 columns, 2 repetitions", defs=NEG, thorough=True, time=600)],
     "larger matrices; fractional weights; the Python code that converts its arguments", A_PY)

prop("C26", "Decoding a batch equals decoding its shots one by one",
     "Decoding a batch of shots, bit-packed or not, gives for every shot the prediction and the weight that decoding it on its own gives, in the requested packing, for any number of detectors, boundary nodes and observables; "
     "batches whose rows are too short or too long are refused.",
     ["inputs", "configurations", "histories"], "all graphs, weights, batches and packings",
     "The C++ tests do not build the module; the Python tests compare one sampled circuit.",
     [F_PYB, F_DEC], [("pybind_user_graph_methods", F_PYB), ("decode_batch", F_PYB), ("decode_detection_events", F_DEC)],
     [uj("py.cc", e, b + ", packed or unpacked shots and predictions, " + ("weights symbolic in [0, 2^24-1]" if e in ("batch_wide", "batch_bnode") else WSY), defs=() if e in ("batch_wide", "batch_bnode") else NEG)
      for e, b in (("batch_pair", "2 shots on 2 detectors, 1, 9 or 65 observables"), ("batch_wide", "2 shots on 10 detectors, 8, 64 or 70 observables"), ("batch_three", "3 shots on 3 detectors, 3 or 17 observables"),
                   ("batch_bnode", "2 shots on 8 detectors and a boundary node, with or without its column"))] +
     [uj("py.cc", "batch_corr", "3 (thorough 4) shots on a model with correlations, decoded with and without them, after nothing or another batch; 3, 9 or 70 observables, probabilities from a grid"),
      uj("py.cc", "batch_layout", "2 shots on 9 detectors given column-major or as every second row and column of a larger array", defs=NEG),
      uj("py.cc", "batch_many", "6 (thorough 8) shots on 4 detectors, one weight symbolic", defs=NEG)] +
     [uj("py.cc", "batch_shape", "7 to 9 detectors, up to 2 boundary nodes, 0 to 12 columns"), uj("py.cc", "batch_three", "as before, real event queue, weights in [-4,6]", mode="a", defs=("-DWLO=-4", "-DWHI=6"))],
     "batches of more than 8 shots", A_PY + A_QUEUE)

prop("C27", "The command line tool predicts and counts as decoding does",
     "The predict command writes, for every shot in order, the prediction that decoding this shot gives; count_mistakes reports the number of shots and the number of those whose recorded observables differ from the "
     "prediction, whether recorded with the shots or in a file of their own. Both fail on shots without a correction, and count_mistakes fails when the observables are recorded nowhere or end early.",
     ["inputs", "histories"], "all models, shots, recorded observables and options",
     "Tests run one model and four shots each.",
     [F_MAIN, F_DEC], [("main_predict", F_MAIN), ("main_count_mistakes", F_MAIN), ("detector_error_model_to_mwpm", F_DEC)],
     [uj("cli.cc", e, b + ", plain and correlated models of 3 detectors, 1 to 70 observables, shots by case split, recorded observables symbolic")
      for e, b in (("predict_one", "one shot"), ("predict_two", "two shots"), ("predict_three", "three shots"), ("count_one", "one shot"), ("count_two", "two shots"), ("count_three", "three shots"))],
     "larger models; parsing of arguments and files (Stim's)", A_STIM + A_QUEUE)

prop("C28", "A graph is read back as it was built",
     "After any sequence of added edges, the numbers of nodes, edges and fault ids, the presence of an edge and the weight, error probability and fault ids read for it or listed for all edges are those of the edges added; "
     "negative node indices and duplicate edges are refused and edges beyond the weight limit are left out with a warning.",
     ["histories", "inputs"], "all sequences of added edges",
     "The C++ tests do not build the module; the Python tests read back a few literal graphs.",
     [F_PYB, F_UG], [("pybind_user_graph_methods", F_PYB), ("UserGraph::has_edge", F_UG), ("UserGraph::add_or_merge_edge", F_UG)],
     [uj("py.cc", "read_back", "3 (thorough 4) edges or boundary edges among 4 nodes, weights symbolic within 2^24-1, one within 2^25, valid and invalid probabilities")],
     "more than 4 edges; merge strategies other than refusing (see C16)", A_PY)

prop("C29", "All forms of the result describe the same minimum-weight correction",
     "For one shot, the predicted fault ids with their weight, the array of edges and the matched pairs of detection events (as array or dictionary, the boundary as -1 or None) are accepted for the same shots and describe "
     "minimum-weight corrections: the edges have the syndrome and the reported weight, every detection event occurs in exactly one pair. Matched pairs are refused exactly when an edge weight is negative.",
     ["inputs", "configurations"], "all graphs, weights, syndromes",
     "The C++ tests do not build the module; the Python tests compare a few literal graphs.",
     [F_PYB, F_DEC], [("pybind_user_graph_methods", F_PYB), ("decode_detection_events_to_edges", F_DEC), ("decode_detection_events_to_match_edges", F_DEC)],
     [uj("py.cc", e, b + ", every syndrome, either order of calls, " + WSY, defs=NEG, time=150)
      for e, b in (("forms_pair", "2 detectors"), ("forms_chain", "3-chain"), ("forms_bnode", "2 detectors and a boundary node"), ("forms_tri", "triangle with a boundary edge"))] +
     [uj("py.cc", "forms_corr", "a model with correlations, every syndrome, any three calls with or without correlations, against the decoding functions (C18) on fresh graphs; probabilities from a grid")] +
     [uj("py.cc", "forms_pair", "2 detectors, real event queue, weights in [-4,6]", mode="a", defs=("-DWLO=-4", "-DWHI=6")), uj("py.cc", "forms_chain", "3-chain, real event queue, weights in [-4,6]", mode="a", defs=("-DWLO=-4", "-DWHI=6"))],
     "graphs of more than 3 detectors", A_PY + A_QUEUE)
F_PY = "src/pymatching/matching.py"
A_PYL = ["The compiled extension, rustworkx and stim are replaced by recorders; NetworkX, SciPy and NumPy are the real ones (NumPy arrays hold solver terms)."]

prop("C30", "Python hands syndromes and options to the decoder unchanged",
     "Every Python decoding call turns a syndrome, given as a vector or as one column per round, a list or an array, into exactly its detection events, refuses it exactly when its shape does not fit the detectors and "
     "boundary nodes, hands its options over and returns the decoder's answer.",
     ["inputs", "configurations"], "all syndromes, numbers of detectors and boundary nodes, options",
     "The Python tests need the compiled module and use a few literal syndromes.",
     [F_PY], [("Matching.decode", F_PY), ("Matching._syndrome_array_to_detection_events", F_PY), ("Matching.decode_batch", F_PY)],
     [PyJob("syndrome_vector", 150, "vectors of length 0..5 (thorough 6) with symbolic entries, symbolic number of detectors, 0..2 boundary nodes, three forms, four decoding calls"),
      PyJob("syndrome_rounds", 150, "1..2 (thorough 3) x 1..3 arrays with symbolic entries, symbolic number of detectors"), PyJob("batch_options", 20, "every combination of options")],
     "longer syndromes; entries other than 0 and 1", A_PYL)

prop("C31", "Graphs given in Python are loaded and given back unchanged",
     "Edges, NetworkX and rustworkx graphs, check matrices, models and files given to the Python classes reach the matching graph with exactly their nodes, edges, weights, error probabilities, fault ids, boundary and options, "
     "missing ones taking the documented defaults; NetworkX and rustworkx graphs are given back the same, and every question about the graph is answered from it. An argument given under two names is refused.",
     ["inputs", "configurations"], "all graphs, check matrices and arguments",
     "The Python tests need the compiled module and load a few literal graphs.",
     [F_PY], [("Matching.load_from_networkx", F_PY), ("Matching.load_from_check_matrix", F_PY), ("Matching.to_networkx", F_PY), ("Matching.add_edge", F_PY)],
     [PyJob("matrix_weights", 100, "a 2x3 check matrix in three forms; weights and probabilities missing, scalar, list or array with symbolic values; every route", reach=("end", "refused", "repeated")),
      PyJob("matrix_repetitions", 100, "1, 2 or 4 repetitions; timelike weights and measurement probabilities missing, scalar, list or array with symbolic values", reach=("end", "refused", "repeated")),
      PyJob("add_edge", 60, "end points, weight, probability and fault id symbolic, every combination of given and missing arguments", reach=("end", "refused")),
      PyJob("networkx", 200, "3 nodes, up to 2 edges and a boundary edge, attributes given or missing, symbolic values", reach=("end", "refused")),
      PyJob("rustworkx", 200, "3 nodes, up to 2 edges and a boundary edge, attributes given or missing, symbolic values", reach=("end", "refused")),
      PyJob("accessors", 60, "up to 2 edges and a boundary edge with symbolic weights and probabilities, 0..2 boundary nodes, every question", reach=("end", "present")),
      PyJob("fault_id_forms", 20, "11 forms of fault ids, both names, both kinds of graph", reach=("end", "refused")),
      PyJob("models", 20, "every way of loading a model, a circuit or a file")],
     "larger graphs and matrices; drawing", A_PYL)

F_ANIM = "src/pymatching/sparse_blossom/diagram/animation_main.cc"
NA = {
    "C32": dict(title="Seeding makes the sampled noise reproducible",
                statement="After set_seed(s) the samples drawn by add_noise are the same whatever was drawn before, and rand_float(a, b) is distributed uniformly over [a, b).",
                over=["inputs", "histories"], qtext="all seeds and earlier draws", why="Tests draw a few samples.", files=[F_RAND], mech=[("set_seed", F_RAND), ("rand_float", F_RAND)],
                reason="The draws go through std::mt19937 (624 words of nonlinear 32-bit recurrence over the seed) and generate_canonical, which computes in x87 long double; with a symbolic seed "
                       "the comparison of draws with probabilities is out of z3's reach and the encoding has no 80-bit floating point. Concrete seeds would be sampling. What noise does with its draws is decided by C23."),
    "C33": dict(title="The animation shows the decoder's regions as they grow",
                statement="Every frame written by the animate command shows the regions, trees and matches of the decoder at that time.",
                over=["inputs"], qtext="all models and shots", why="Tests compare one picture with a recorded one.", files=[F_ANIM, "src/pymatching/sparse_blossom/diagram/mwpm_diagram.cc"],
                mech=[("main_animation", F_ANIM)],
                reason="The result is SVG text in files, written through iostreams (modelled as no-ops in the encoding) with trigonometric layout; no oracle over symbolic drawings is within reach."),
}
