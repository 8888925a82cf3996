// The user graph: boundary nodes (C14), discretisation of weights (C15), parallel edges (C16), changes after decoding (C17).
#include <cmath>
#include "mined.h"
#include "ugx.h"
using namespace pm;
#ifndef WLO
#define WLO 0
#endif
#ifndef WHI
#define WHI ((1 << 24) - 1)
#endif
static bool ok_decode(Mwpm& m, const std::vector<uint64_t>& dets, MatchingResult& r) {
    try {
        r = decode_detection_events_for_up_to_64_observables(m, dets, false);
        return true;
    } catch (const std::invalid_argument&) {
        return false;
    }
}
/// decoding `dets` with ug gives a minimum-weight correction of the syndrome `s` of g (weights of g are twice the user's weights)
static void check_decode(UserGraph& ug, const Inst& g, const Oracle& o, uint64_t s, const std::vector<uint64_t>& dets, bool with_search,
                         const char* msg) {
    Mwpm& m = with_search ? ug.get_mwpm_with_search_graph() : ug.get_mwpm();
    MatchingResult r;
    bool ok = ok_decode(m, dets, r);
    sx_assert(ok == o.feasible(s), msg);
    if (!ok || !o.feasible(s))
        return;
    for (auto c : o.by_synd[s])
        sx_assert(r.weight <= o.cost[c], msg);
    // every edge has an observable of its own: the prediction names the edges of the correction
    uint64_t em = 0, left = r.obs_mask;
    for (size_t k = 0; k < g.e.size(); k++)
        for (auto ob : g.obs[k])
            if (left >> ob & 1) {
                em |= uint64_t{1} << k;
                left &= ~(uint64_t{1} << ob);
            }
    bool good = left == 0 && o.consistent(s, em);
    sx_assert(good, msg);
    if (good)
        sx_assert(o.cost[em] == r.weight, msg);
    sx_assert(m.flooder.graph.normalising_constant == 2, msg);
    if (!with_search)
        return;
    std::vector<int64_t> edges;
    try {
        decode_detection_events_to_edges(m, dets, edges);
    } catch (const std::invalid_argument&) {
        ok = false;
    }
    sx_assert(ok, msg);
    // the edges returned: the boundary is -1; several boundary edges of a node are told apart by taking the lightest
    uint64_t syn = 0;
    int64_t total = 0;
    for (size_t i = 0; i + 1 < edges.size(); i += 2) {
        int64_t u = edges[i], v = edges[i + 1], best = 0;
        bool found = false;
        for (size_t k = 0; k < g.e.size(); k++)
            if ((g.e[k].u == u && g.e[k].v == v) || (g.e[k].u == v && g.e[k].v == u)) {
                best = found ? sx_ite(g.w[k] < best, g.w[k], best) : g.w[k];
                found = true;
            }
        sx_assert(found, msg);
        total += best;
        syn ^= (u >= 0 ? uint64_t{1} << u : 0) ^ (v >= 0 ? uint64_t{1} << v : 0);
    }
    sx_assert(syn == s, msg);
    sx_assert(total == r.weight, msg);
}

// ---------------------------------------------------------------------------------------------- C14 boundary nodes
static void boundary_body(Inst g, uint64_t s) {
    BoundaryStyle style = (BoundaryStyle)sx_choose("style", 0, 2);
    Oracle o(g);
    UserGraph ug(sx_choose("presized", 0, 1) ? g.n : 0);
    fill_user_graph(ug, g, style);
    auto b = ug.get_boundary();
    sx_assert(ug.get_num_detectors() + b.size() == ug.get_num_nodes(), "nodes that are not boundary nodes are not counted as detectors");
    std::vector<uint64_t> dets = dets_of(s, g.n);
    if (b.size() >= 2 && sx_choose("joined", 0, 1)) {
        // an edge between boundary nodes changes nothing
        ug.add_or_merge_edge(*b.begin(), *b.rbegin(), {}, (double)sx_int("bb", 0, WHI), -1);
        sx_reach("boundary nodes joined");
    }
    if (!b.empty() && sx_choose("fired_boundary", 0, 1)) {
        // a detection event on a boundary node is ignored, wherever in the list it is
        dets.insert(dets.begin() + sx_choose("at", 0, 1) * dets.size(), *b.rbegin());
        sx_reach("detection event on a boundary node");
    }
    check_decode(ug, g, o, s, dets, sx_choose("search", 0, 1), "a graph with boundary nodes is not decoded as the same graph with boundary edges");
    sx_reach("end");
}
static void any_syndrome(Inst g) {
    boundary_body(g, sx_choose("syndrome", 0, (1 << g.n) - 1));
}
#define FAM14(name, n, ...) \
    HARNESS(bn_##name) { any_syndrome(sym_inst(n, __VA_ARGS__, WLO, WHI)); }
FAM14(single, 1, {{0, -1}})
FAM14(pair, 2, {{0, 1}, {0, -1}, {1, -1}})
FAM14(chain3, 3, {{0, -1}, {0, 1}, {1, 2}, {2, -1}})
FAM14(tri, 3, {{0, 1}, {1, 2}, {0, 2}, {1, -1}})
FAM14(two, 3, {{0, -1}, {1, 2}})
/// two boundary nodes next to the same detector: the lighter edge counts
HARNESS(bn_parallel) {
    Inst g = sym_inst(2, {{0, 1}, {0, -1}, {1, -1}, {0, -1}}, 0, WHI);
    int s = sx_choose("syndrome", 0, 3);
    Oracle o(g);
    UserGraph ug;
    bool mixed = sx_choose("one_is_an_edge", 0, 1);
    ug.add_or_merge_edge(0, 1, g.obs[0], (double)(g.w[0] / 2), -1);
    ug.add_or_merge_edge(2, 0, g.obs[1], (double)(g.w[1] / 2), -1);
    ug.add_or_merge_edge(1, 3, g.obs[2], (double)(g.w[2] / 2), -1);
    if (mixed)
        ug.add_or_merge_boundary_edge(0, g.obs[3], (double)(g.w[3] / 2), -1);
    else
        ug.add_or_merge_edge(0, 3, g.obs[3], (double)(g.w[3] / 2), -1);
    ug.set_boundary({2, 3});
    check_decode(ug, g, o, s, dets_of(s, 2), sx_choose("search", 0, 1), "several boundary edges of a node: the result is not that of the lightest");
    sx_reach("end");
}

// ---------------------------------------------------------------------------------------------- C15 discretisation
/// integral weights are used exactly, at any magnitude up to the limit, and refused beyond
HARNESS(disc_int) {
    int64_t hi = (1 << 24) + 2;
    int64_t w0 = sx_int("w0", -hi, hi), w1 = sx_int("w1", -hi, hi);
    UserGraph ug(2);
    ug.add_or_merge_boundary_edge(0, {0}, (double)w0, -1);
    ug.add_or_merge_edge(1, 0, {1}, (double)w1, -1);
    bool threw = false;
    int64_t wd = 0;
    double c = 0;
    MatchingResult r;
    int s = sx_choose("syndrome", 0, 3);
    try {
        auto& m = ug.get_mwpm();
        c = m.flooder.graph.normalising_constant;
        r = decode_detection_events_for_up_to_64_observables(m, dets_of(s, 2), false);
    } catch (const std::invalid_argument&) {
        threw = true;
    }
    int64_t lim = (1 << 24) - 1;
    bool over = w0 > lim || w0 < -lim || w1 > lim || w1 < -lim;
    sx_assert(threw == over, "weights are not refused exactly when one exceeds the limit");
    if (threw)
        return;
    wd = (s & 1 ? (s & 2 ? w1 : w0) : (s & 2 ? w0 + w1 : 0));
    sx_assert(c == 2 && r.weight == 2 * wd, "an integral weight is not used exactly");
    sx_reach("end");
}
/// a non-integral weight is used to within half a unit of the scale that maps the largest weight to 2^24-1
static void disc_one(double wmax, double w) {
    UserGraph ug(2);
    ug.add_or_merge_boundary_edge(0, {0}, w, -1);
    ug.add_or_merge_boundary_edge(1, {1}, wmax, -1);
    auto& m = ug.get_mwpm();
    double c = m.flooder.graph.normalising_constant;
    MatchingResult r0 = decode_detection_events_for_up_to_64_observables(m, {0}, false);
    MatchingResult r1 = decode_detection_events_for_up_to_64_observables(m, {1}, false);
    double unit = std::abs(wmax) / 16777215.0;
    sx_assert(std::abs((double)r0.weight / c - w) <= 0.5001 * unit, "a weight is off by more than half a unit of the scale");
    sx_assert(std::abs((double)r1.weight / c - wmax) <= 0.5001 * unit, "the largest weight is off by more than half a unit of the scale");
    sx_assert(r0.obs_mask == 1 && r1.obs_mask == 2, "wrong observables");
    sx_reach("end");
}
HARNESS(disc_grid) {
    static const double mx[] = {0.5, 3.7, 1e-3, 16777214.5, 1e-300, -2.5};
    static const double fr[] = {0, 1e-12, 1.0 / 3, 0.25, 0.49999999, 0.75, 0.9999999, 1, -1, -0.3};
    double wmax = mx[sx_choose("max", 0, 5)];
    disc_one(wmax, wmax * fr[sx_choose("fraction", 0, 9)]);
}
/// every weight that is a multiple of 2^-26 next to a largest weight of (2^24-1)/2^20: the scale is exactly 2^20, and the rounding is decided symbolically
HARNESS(disc_dyadic) {
    double wmax = 16777215.0 / 1048576.0;
    int64_t k = sx_int("k", -1073741759, 1073741759);
    double w = (double)k / 67108864.0;
    UserGraph ug(2);
    int neg = sx_choose("negative_max", 0, 1);
    ug.add_or_merge_boundary_edge(0, {0}, w, -1);
    ug.add_or_merge_boundary_edge(1, {1}, neg ? -wmax : wmax, -1);
    auto& m = ug.get_mwpm();
    double c = m.flooder.graph.normalising_constant;
    sx_assert(c == 2097152.0, "the scale does not map the largest weight to 2^24-1");
    MatchingResult r0 = decode_detection_events_for_up_to_64_observables(m, {0}, false);
    MatchingResult r01 = decode_detection_events_for_up_to_64_observables(m, {0, 1}, false);
    // |r0/c - w| <= half a unit:  |64 r0/2 - k| <= 32
    sx_assert(32 * r0.weight - k <= 32 && k - 32 * r0.weight <= 32, "a weight is off by more than half a unit of the scale");
    sx_assert(r01.weight - r0.weight == (neg ? -1 : 1) * 2 * int64_t{16777215}, "the largest weight is not represented exactly");
    sx_assert(r0.obs_mask == 1 && r01.obs_mask == 3, "wrong observables");
    sx_reach("end");
}
/// non-integral weights next to each other: order and sums survive the discretisation up to rounding
HARNESS(disc_choice) {
    double wmax = 16777215.0 / 1048576.0;
    int64_t k[3];
    for (int i = 0; i < 3; i++)
        k[i] = sx_int(nm("k", i).c_str(), 0, 1073741759);
    UserGraph ug(3);
    ug.add_or_merge_edge(0, 1, {0}, (double)k[0] / 67108864.0, -1);
    ug.add_or_merge_boundary_edge(0, {1}, (double)k[1] / 67108864.0, -1);
    ug.add_or_merge_boundary_edge(1, {2}, (double)k[2] / 67108864.0, -1);
    ug.add_or_merge_boundary_edge(2, {3}, wmax, -1);
    auto& m = ug.get_mwpm();
    int s = sx_choose("syndrome", 1, 3);
    MatchingResult r = decode_detection_events_for_up_to_64_observables(m, dets_of(s, 3), false);
    int64_t best = 0, chosen = 0;
    bool first = true;
    for (int c = 0; c < 8; c++) {
        int sy = (c & 1 ? 3 : 0) ^ (c & 2 ? 1 : 0) ^ (c & 4 ? 2 : 0);
        if (sy != s)
            continue;
        int64_t cost = (c & 1 ? k[0] : 0) + (c & 2 ? k[1] : 0) + (c & 4 ? k[2] : 0);
        best = first ? cost : sx_ite(cost < best, cost, best);
        first = false;
    }
    int good = 0;
    for (int c = 0; c < 8; c++)
        if (r.obs_mask == (uint64_t)c) {
            good = 1;
            chosen = (c & 1 ? k[0] : 0) + (c & 2 ? k[1] : 0) + (c & 4 ? k[2] : 0);
        }
    sx_assert(good, "wrong observables");
    sx_assert(chosen - best <= 3 * 64, "the correction is further from the optimum than the rounding of its weights");
    sx_assert(32 * r.weight - best <= 96 && best - 32 * r.weight <= 96, "the reported weight is further from the optimum than the rounding of its weights");
    sx_reach("end");
}

// ---------------------------------------------------------------------------------------------- C16 parallel edges
static const double PROBS[] = {-1, 0, 0.125, 0.5, 1, 1.5};
struct Want {
    double w, p;
    std::vector<size_t> obs;
};
/// the graph's record of edge (u, v) (v == SIZE_MAX: boundary edge)
static const UserEdge* record(const UserGraph& ug, size_t u, size_t v) {
    const UserEdge* r = nullptr;
    for (auto& e : ug.edges)
        if ((e.node1 == u && e.node2 == v) || (e.node1 == v && e.node2 == u)) {
            sx_assert(!r, "an edge is recorded twice");
            r = &e;
        }
    return r;
}
static bool same_prob(double a, double b) {
    bool va = a >= 0 && a <= 1, vb = b >= 0 && b <= 1;
    return va == vb && (!va || std::abs(a - b) < 1e-12);
}
static void merge_body(bool independent) {
    bool boundary = sx_choose("boundary", 0, 1);
    size_t u = 1, v = boundary ? SIZE_MAX : 2;
    double w1, w2;
    static const double LW[] = {0, 0.3, 2.2, 40, 800, 5000, -0.4, -3, -900};
    if (independent) {
        w1 = LW[sx_choose("w1", 0, 8)];
        w2 = LW[sx_choose("w2", 0, 8)];
    } else {
        w1 = (double)sx_int("w1", -WHI, WHI);
        w2 = (double)sx_int("w2", -WHI, WHI);
    }
    double p1 = PROBS[sx_choose("p1", 0, 5)], p2 = PROBS[sx_choose("p2", 0, 5)];
    static const MERGE_STRATEGY st[] = {DISALLOW, SMALLEST_WEIGHT, KEEP_ORIGINAL, REPLACE};
    MERGE_STRATEGY strat = independent ? INDEPENDENT : st[sx_choose("strategy", 0, 3)];
    UserGraph ug(3);
    ug.add_or_merge_edge(0, 1, {0}, 7, 0.25);
    ug.add_or_merge_edge(2, 0, {1}, 9, 0.25);
    std::vector<size_t> o1 = {2}, o2 = {1, 3};
    bool late = sx_choose("decoded_before", 0, 1);
    auto add = [&](double w, double p, const std::vector<size_t>& o, bool swap, MERGE_STRATEGY s) {
        if (boundary)
            ug.add_or_merge_boundary_edge(u, o, w, p, s);
        else if (swap)
            ug.add_or_merge_edge(v, u, o, w, p, s);
        else
            ug.add_or_merge_edge(u, v, o, w, p, s);
    };
    add(w1, p1, o1, false, DISALLOW);
    MatchingResult r;
    if (late)
        ok_decode(ug.get_mwpm(), {0, 1}, r);
    bool threw = false;
    try {
        add(w2, p2, o2, sx_choose("swapped", 0, 1), strat);
    } catch (const std::invalid_argument&) {
        threw = true;
    }
    sx_assert(threw == (strat == DISALLOW), "a parallel edge is refused exactly when the strategy disallows it");
    bool taken = strat == REPLACE || (strat == SMALLEST_WEIGHT && w2 < w1);
    Want want = taken ? Want{w2, p2, o2} : Want{w1, p1, o1};
    if (independent) {
        want.p = p1 >= 0 && p1 <= 1 && p2 >= 0 && p2 <= 1 ? p1 * (1 - p2) + p2 * (1 - p1) : -1;
        // log((1-p)/p) of the combined probability, evaluated without overflow
        double a = w1, b = w2, t = std::tanh(a / 2) * std::tanh(b / 2);
        double m = std::min(std::abs(a), std::abs(b));
        want.w = m > 15 ? ((a < 0) != (b < 0) ? -1 : 1) * (m - (std::abs(std::abs(a) - std::abs(b)) < 1e-9 ? std::log(2.0) : 0)) : std::log((1 + t) / (1 - t));
    }
    const UserEdge* e = record(ug, u, v);
    sx_assert(e != nullptr && ug.get_num_edges() == 3, "a parallel edge changes the set of edges");
    if (!e)
        return;
    double got = 0, got2 = 0;
    bool has = ug.get_edge_or_boundary_edge_weight(u, v, got), has2 = boundary || ug.get_edge_or_boundary_edge_weight(v, u, got2);
    sx_assert(has && has2 && (boundary ? ug.has_boundary_edge(u) && !ug.has_boundary_edge(0) : ug.has_edge(u, v) && ug.has_edge(v, u)), "a merged edge is not found");
    if (independent) {
        double tol = 1e-6 * (1 + std::abs(want.w));
        sx_assert(std::abs(got - want.w) <= tol, "the merged weight is not that of two independent errors");
    } else {
        sx_assert(got == want.w, "the merged edge has another weight than the strategy says");
    }
    sx_assert(boundary || got == got2, "the two ends of an edge see different weights");
    sx_assert(e->weight == got, "the recorded weight differs from the one looked up");
    sx_assert(same_prob(e->error_probability, want.p), "the merged edge has another error probability than the strategy says");
    sx_assert(e->observable_indices == want.obs, "the merged edge has other observables than the strategy says");
    sx_assert(ug.get_num_observables() >= (taken ? 4 : 3), "the observables of a merged edge are not counted");
    bool all = p1 >= 0 && p1 <= 1 && want.p >= 0 && want.p <= 1;
    bool none = !(want.p >= 0 && want.p <= 1);
    if (all || none)
        sx_assert(ug.all_edges_have_error_probabilities() == all, "whether all edges have error probabilities is misreported");
    if (independent && std::abs(want.w) > 1000)
        return;
    // decoding uses the merged edge
    uint64_t s = sx_choose("syndrome", 0, 1) ? (boundary ? 2 : 6) : 3;
    bool ok = ok_decode(ug.get_mwpm(), dets_of(s, 3), r);
    bool feasible = boundary || __builtin_parityll(s) == 0;
    sx_assert(ok == feasible, "a syndrome is accepted or refused wrongly after a merge");
    if (!ok || independent)
        return;
    // edges: A = {0,1} 7, B = {2,0} 9, M = merged
    uint64_t best_mask = 0;
    int64_t wm = (int64_t)want.w, mo = taken ? 0xA : 0x4;
    bool any = false;
    for (int c = 0; c < 8; c++) {
        uint64_t sy = (c & 1 ? 3 : 0) ^ (c & 2 ? 5 : 0) ^ (c & 4 ? (boundary ? 2 : 6) : 0);
        if (sy != s)
            continue;
        int64_t cost = (c & 1 ? 7 : 0) + (c & 2 ? 9 : 0) + (c & 4 ? wm : 0);
        uint64_t ob = (c & 1 ? 1 : 0) ^ (c & 2 ? 2 : 0) ^ (c & 4 ? mo : 0);
        sx_assert(r.weight <= 2 * cost, "decoding after a merge is not optimal for the merged edge");
        any |= (r.weight == 2 * cost) & (r.obs_mask == ob);
    }
    (void)best_mask;
    sx_assert(any, "decoding after a merge predicts something that no correction of that weight gives");
    sx_reach("end");
}
HARNESS(merge_pick) {
    merge_body(false);
}
HARNESS(merge_independent) {
    merge_body(true);
    sx_reach("end");
}

// ---------------------------------------------------------------------------------------------- C17 changes after decoding
/// A graph that is decoded, changed, and decoded again.
static void change_body() {
    Inst g = sym_inst(3, {{0, 1}, {1, 2}, {0, -1}}, WLO, WHI);
    UserGraph ug(3);
    fill_user_graph(ug, g, B_EDGE);
    int steps = TIER ? 2 : 1;
    auto shot = [&](const char* name, const char* msg) {
        uint64_t s = sx_choose(name, 1, (1 << g.n) - 1);
        if (TIER == 0)
            sx_assume(s == 1 || s == 6 || s == 7 || s == 8 || s == 12);
        Oracle o(g);
        check_decode(ug, g, o, s, dets_of(s, g.n), sx_choose(nm(name, 'k').c_str(), 0, 1), msg);
    };
    shot("before", "the graph is not decoded correctly");
    for (int k = 0; k < steps; k++) {
        int op = sx_choose(nm("op", k).c_str(), 0, 8);
        int64_t w = sx_int(nm("new", k).c_str(), WLO, WHI);
        size_t ob = g.num_obs;
        if (op == 0) {  // a new edge
            ug.add_or_merge_edge(2, 0, {ob}, (double)w, -1);
            g.e.push_back({0, 2});
            g.w.push_back(2 * w);
            g.obs.push_back({ob});
            g.num_obs++;
        } else if (op == 1) {  // a new boundary edge
            ug.add_or_merge_boundary_edge(2, {ob}, (double)w, -1);
            g.e.push_back({2, -1});
            g.w.push_back(2 * w);
            g.obs.push_back({ob});
            g.num_obs++;
        } else if (op == 2) {  // an edge replaced
            ug.add_or_merge_edge(1, 0, {0}, (double)w, -1, REPLACE);
            g.w[0] = 2 * w;
        } else if (op == 3) {  // a boundary edge replaced
            ug.add_or_merge_boundary_edge(0, {2}, (double)w, -1, REPLACE);
            g.w[2] = 2 * w;
        } else if (op == 4) {  // a new node
            ug.add_or_merge_edge(2, 3, {ob}, (double)w, -1);
            g.n = 4;
            g.e.push_back({2, 3});
            g.w.push_back(2 * w);
            g.obs.push_back({ob});
            g.num_obs++;
        } else if (op == 6) {  // only the observables of an edge change
            ug.add_or_merge_edge(0, 1, {ob}, (double)(g.w[0] / 2), -1, REPLACE);
            g.obs[0] = {ob};
            g.num_obs++;
        } else if (op == 7) {  // a lighter parallel edge
            ug.add_or_merge_edge(2, 1, {ob}, (double)w, -1, SMALLEST_WEIGHT);
            if (2 * w < g.w[1]) {
                g.w[1] = 2 * w;
                g.obs[1] = {ob};
            }
            g.num_obs++;
        } else if (op == 8) {  // only the observables of a boundary edge change
            ug.add_or_merge_boundary_edge(0, {ob}, (double)(g.w[2] / 2), -1, REPLACE);
            g.obs[2] = {ob};
            g.num_obs++;
        } else {  // node 2 becomes a boundary node
            ug.set_boundary({2});
            g.n = 2;
            g.e[1] = {1, -1};
        }
        if (op == 5 || op == 0 || op == 1)
            break;
    }
    shot("after", "after a change the graph is not decoded as the changed graph");
    sx_reach("end");
}
HARNESS(change) {
    change_body();
}
/// a parallel edge merged in any way after a decoding counts as if it had been there from the start
HARNESS(change_merge) {
    static const double W[] = {0.5, 2, 3.25, 7};
    static const MERGE_STRATEGY S[] = {SMALLEST_WEIGHT, KEEP_ORIGINAL, INDEPENDENT, REPLACE};
    bool boundary = sx_choose("boundary", 0, 1);
    MERGE_STRATEGY st = S[sx_choose("strategy", 0, 3)];
    double w0 = W[sx_choose("w0", 0, 3)], w1 = W[sx_choose("w1", 0, 3)], other = W[sx_choose("other", 0, 3)];
    int64_t far = sx_choose("far", 0, 1);
    auto build = [&](UserGraph& ug) {
        ug.add_or_merge_edge(0, 1, {0}, boundary ? other : w0, 0.125);
        ug.add_or_merge_boundary_edge(0, {1}, boundary ? w0 : other, 0.125);
        ug.add_or_merge_boundary_edge(1, {2}, far ? 1.5 : 40.25, 0.125);
    };
    auto merge = [&](UserGraph& ug) {
        if (boundary)
            ug.add_or_merge_boundary_edge(0, {3}, w1, 0.25, st);
        else
            ug.add_or_merge_edge(1, 0, {3}, w1, 0.25, st);
    };
    UserGraph used, fresh;
    build(used);
    build(fresh);
    bool search = sx_choose("search", 0, 1);
    auto mwpm = [&](UserGraph& ug) -> Mwpm& { return search ? ug.get_mwpm_with_search_graph() : ug.get_mwpm(); };
    std::vector<uint64_t> dets = dets_of(sx_choose("syndrome", 1, 3), 2);
    MatchingResult r;
    sx_assert(ok_decode(mwpm(used), dets, r), "a syndrome that has a correction was rejected");
    merge(used);
    merge(fresh);
    MatchingResult a, b;
    bool ok = ok_decode(mwpm(used), dets, a) && ok_decode(mwpm(fresh), dets, b);
    sx_assert(ok, "a syndrome that has a correction was rejected");
    if (!ok)
        return;
    sx_assert(a.weight == b.weight && a.obs_mask == b.obs_mask, "after a parallel edge is merged the graph is not decoded as the changed graph");
    sx_assert(used.get_mwpm().flooder.graph.normalising_constant == fresh.get_mwpm().flooder.graph.normalising_constant,
              "after a parallel edge is merged the weights are scaled as before it");
    if (search) {
        std::vector<int64_t> e1, e2;
        decode_detection_events_to_edges(mwpm(used), dets, e1);
        decode_detection_events_to_edges(mwpm(fresh), dets, e2);
        sx_assert(e1 == e2, "after a parallel edge is merged the graph is not decoded as the changed graph");
    }
    sx_reach("end");
}
/// boundary nodes that stop being boundary nodes
HARNESS(boundary_moves) {
    int64_t a = sx_int("a", WLO, WHI), b = sx_int("b", WLO, WHI), c = sx_int("c", WLO, WHI);
    UserGraph ug(3);
    ug.add_or_merge_edge(0, 1, {0}, (double)a, -1);
    ug.add_or_merge_edge(1, 2, {1}, (double)b, -1);
    ug.add_or_merge_edge(0, 2, {2}, (double)c, -1);
    auto inst = [&](int bn) {
        // relabelled so that the detectors of the oracle are bits of the node indices; the boundary node has no detector
        Inst g;
        g.n = 3;
        int64_t w[] = {2 * a, 2 * b, 2 * c};
        int ends[3][2] = {{0, 1}, {1, 2}, {0, 2}};
        for (int i = 0; i < 3; i++) {
            int x = ends[i][0], y = ends[i][1];
            g.e.push_back(x == bn ? Ed{y, -1} : y == bn ? Ed{x, -1} : Ed{x, y});
            g.w.push_back(w[i]);
            g.obs.push_back({(size_t)i});
        }
        g.num_obs = 3;
        return g;
    };
    int b1 = sx_choose("first", -1, 2), b2 = sx_choose("second", -1, 2);
    for (int step = 0; step < 2; step++) {
        int bn = step ? b2 : b1;
        ug.set_boundary(bn < 0 ? std::set<size_t>{} : std::set<size_t>{(size_t)bn});
        Inst g = inst(bn);
        Oracle o(g);
        uint64_t s = sx_choose(step ? "s2" : "s1", 1, 7), eff = bn < 0 ? s : s & ~(uint64_t{1} << bn);
        check_decode(ug, g, o, eff, dets_of(s, 3), sx_choose(step ? "k2" : "k1", 0, 1), "after moving the boundary the graph is decoded with another boundary");
        sx_assert(ug.get_num_detectors() == (bn < 0 ? 3 : 2), "the number of detectors is not updated when the boundary moves");
    }
    sx_reach("end");
}
