// Decoding harnesses. One body per property (selected by PROP), run over instances whose weights are symbolic.
// By default every edge flips an observable of its own, so that predicted observables name the correction that was chosen.
#include <algorithm>
#include "mined.h"
#include "mined2.h"
using namespace pm;

static bool ok_decode(Mwpm& m, const std::vector<uint64_t>& dets, MatchingResult& r, bool corr = false) {
    try {
        r = decode_detection_events_for_up_to_64_observables(m, dets, corr);
        return true;
    } catch (const std::invalid_argument&) {
        return false;
    }
}
static void assert_optimal_mask(const Inst& g, const Oracle& o, uint64_t s, uint64_t mask, const char* what_inconsistent, const char* what_not_min) {
    bool ok = o.consistent(s, mask);
    sx_assert(ok, what_inconsistent);
    if (ok)
        for (auto c : o.by_synd[s])
            sx_assert(o.cost[mask] <= o.cost[c], what_not_min);
}
/// the weight is that of some minimum-weight correction; mask is used as the witness when it is one
static void assert_optimal_weight(const Inst& g, const Oracle& o, uint64_t s, int64_t weight, uint64_t mask) {
    for (auto c : o.by_synd[s])
        sx_assert(weight <= o.cost[c], "reported weight exceeds that of a consistent correction");
    if (o.consistent(s, mask)) {
        if (weight == o.cost[mask])
            return;
    }
    bool any = false;
    for (auto c : o.by_synd[s])
        any |= weight == o.cost[c];
    sx_assert(any, "reported weight is not attained by any correction");
}
/// which of the shared observables (OBSHARE) edge i flips
static std::vector<size_t> shared_obs(size_t i, size_t base) {
    static const std::vector<size_t> t[] = {{0}, {0, 1}, {1, 2}, {0}, {2}};
    std::vector<size_t> r = t[i % 5];
    for (auto& x : r)
        x += base;
    return r;
}
static void share_observables(Inst& g, size_t base, size_t num_obs) {
    g.num_obs = num_obs;
    for (size_t i = 0; i < g.obs.size(); i++)
        g.obs[i] = shared_obs(i, base);
}
/// with observables shared between edges: some minimum-weight correction flips exactly those of mask (bit k: observable base + k)
static void assert_shared(const Inst& g, const Oracle& o, uint64_t s, uint64_t mask, int64_t weight) {
    bool any = false;
    int64_t best = 0;
    for (auto c : o.by_synd[s]) {
        uint64_t f = 0;
        for (size_t i = 0; i < g.e.size(); i++)
            if (c >> i & 1)
                for (auto x : shared_obs(i, 0))
                    f ^= uint64_t{1} << x;
        if (f == mask) {
            best = any ? sx_ite(o.cost[c] < best, o.cost[c], best) : o.cost[c];
            any = true;
        }
    }
    sx_assert(any, "predicted observables are not those of any correction of this syndrome");
    if (any) {
        for (auto c : o.by_synd[s])
            sx_assert(best <= o.cost[c], "predicted observables belong to a correction that is not of minimum weight");
        sx_assert(weight == best, "reported weight is not that of the predicted correction");
    }
}
static uint64_t edge_mask(const Inst& g, const std::vector<int64_t>& edges, bool assert_edges) {
    uint64_t mask = 0;
    sx_assert(!assert_edges || edges.size() % 2 == 0, "edge list has an odd length");
    for (size_t i = 0; i + 1 < edges.size(); i += 2) {
        int64_t u = edges[i], v = edges[i + 1];
        int found = -1;
        for (size_t k = 0; k < g.e.size(); k++)
            if ((g.e[k].u == u && g.e[k].v == v) || (g.e[k].u == v && g.e[k].v == u))
                found = k;
        sx_assert(!assert_edges || found >= 0, "an output edge is not an edge of the graph");
        if (found < 0)
            continue;
        sx_assert(!assert_edges || !(mask >> found & 1), "an edge appears twice in the output");
        mask ^= uint64_t{1} << found;
    }
    return mask;
}
/// shortest distance between two vertices (v == -1: the boundary) with non-negative weights, without branching on the weights
static int64_t dist(const Inst& g, const Oracle& o, int u, int v) {
    uint64_t s = (uint64_t{1} << u) ^ (v >= 0 ? uint64_t{1} << v : 0);
    int64_t best = INT64_MAX / 4;
    bool first = true;
    for (auto c : o.by_synd[s]) {
        best = first ? o.cost[c] : sx_ite(o.cost[c] < best, o.cost[c], best);
        first = false;
    }
    return best;
}
static Inst many_observables(const Inst& g) {
    Inst h = g;
    h.num_obs = 70;
    for (size_t i = 0; i < h.obs.size(); i++)
        h.obs[i] = {(69 + 9 * i) % 70};
    return h;
}

/// g: instance; s: syndrome; s0: an earlier syndrome for the properties about histories
static void body(const Inst& g, uint64_t s, uint64_t s0) {
    Oracle o(g);
    std::vector<uint64_t> dets = dets_of(s, g.n);
    MatchingResult r;
#if defined(OBSHARE)
    // observables shared between edges, as few (mask) and among seventy (array)
#if OBSHARE != 3
    Inst h = g;
    share_observables(h, 0, 3);
    Mwpm m = make_mwpm(h, false);
    bool ok = ok_decode(m, dets, r);
    sx_assert(ok == o.feasible(s), "a syndrome is rejected although it has a correction, or accepted although it has none");
    if (ok && o.feasible(s))
        assert_shared(h, o, s, r.obs_mask, r.weight);
#endif
#if OBSHARE >= 2
    Inst q = g;
    share_observables(q, 67, 70);
    Mwpm mm = make_mwpm(q, true);
    std::vector<uint8_t> bits(70, 0);
    total_weight_int w = 0;
    bool ok2 = true;
    try {
        decode_detection_events(mm, dets, bits.data(), w, false);
    } catch (const std::invalid_argument&) {
        ok2 = false;
    }
    sx_assert(ok2 == o.feasible(s), "with more than 64 observables another set of syndromes is accepted");
    if (ok2 && o.feasible(s)) {
        uint64_t mask = 0;
        for (size_t i = 0; i < 70; i++) {
            sx_assert(bits[i] <= (i >= 67), "an observable entry is neither 0 nor 1, or an observable no edge carries is flipped");
            if (i >= 67 && bits[i])
                mask |= uint64_t{1} << (i - 67);
        }
        assert_shared(q, o, s, mask, w);
    }
#endif
#elif PROP == 1
    Mwpm m = make_mwpm(g, false);
    bool ok = ok_decode(m, dets, r);
    if (o.feasible(s)) {
        sx_assert(ok, "a syndrome that has a correction was rejected");
        assert_optimal_weight(g, o, s, r.weight, r.obs_mask);
        sx_out("weight", r.weight);
    }
#elif PROP == 2
    Mwpm m = make_mwpm(g, false);
    if (ok_decode(m, dets, r) && o.feasible(s))
        assert_optimal_mask(g, o, s, r.obs_mask, "predicted observables are not those of any correction of this syndrome",
                            "predicted observables belong to a correction that is not of minimum weight");
#elif PROP == 3
    Mwpm m = make_mwpm(g, true);
    if (o.feasible(s)) {
        std::vector<int64_t> edges;
        bool ok = true;
        try {
            decode_detection_events_to_edges(m, dets, edges);
        } catch (const std::invalid_argument&) {
            ok = false;
        }
        sx_assert(ok, "a syndrome that has a correction was rejected");
        uint64_t mask = edge_mask(g, edges, true);
        assert_optimal_mask(g, o, s, mask, "the edges returned do not produce the syndrome", "the edges returned are not of minimum total weight");
        // markers must be clean afterwards: the same shot gives a valid answer again
        if (s0) {
            std::vector<int64_t> again;
            decode_detection_events_to_edges(m, dets, again);
            assert_optimal_mask(g, o, s, edge_mask(g, again, true), "the edges returned for a repeated shot do not produce the syndrome",
                                "the edges returned for a repeated shot are not of minimum total weight");
        }
    }
#elif PROP == 4
    Mwpm m = make_mwpm(g, false);
    if (o.feasible(s)) {
        bool ok = true;
        try {
            decode_detection_events_to_match_edges(m, dets);
        } catch (const std::invalid_argument&) {
            ok = false;
        }
        sx_assert(ok, "a syndrome that has a correction was rejected");
        uint64_t seen = 0;
        int64_t total = 0;
        uint64_t witness = 0;
        bool witness_ok = true;
        auto& nodes = m.flooder.graph.nodes;
        for (auto& me : m.flooder.match_edges) {
            sx_assert(me.loc_from != nullptr, "a pair without a first detection event");
            int64_t u = me.loc_from - &nodes[0], v = me.loc_to ? me.loc_to - &nodes[0] : -1;
            sx_assert(u >= 0 && u < g.n && v < g.n && v >= -1, "a pair names a node outside the graph");
            sx_assert(s >> u & 1, "a matched node is not a detection event");
            sx_assert(!(seen >> u & 1), "a detection event is matched twice");
            seen |= uint64_t{1} << u;
            if (v >= 0) {
                sx_assert(s >> v & 1, "a matched node is not a detection event");
                sx_assert(!(seen >> v & 1), "a detection event is matched twice");
                seen |= uint64_t{1} << v;
            }
            uint64_t ps = (uint64_t{1} << u) ^ (v >= 0 ? uint64_t{1} << v : 0);
            sx_assert(o.feasible(ps), "two detection events without a connecting path are matched");
            witness_ok &= o.consistent(ps, me.obs_mask);
            if (witness_ok)
                total += o.cost[me.obs_mask];
        }
        sx_assert(seen == s, "a detection event is left unmatched");
        // total length of the pairing: by the recorded paths when they are paths of the pairs, else by shortest distances
        bool fine = witness_ok;
        if (!fine) {
            total = 0;
            for (auto& me : m.flooder.match_edges)
                total += dist(g, o, me.loc_from - &nodes[0], me.loc_to ? (int)(me.loc_to - &nodes[0]) : -1);
        }
        for (auto c : o.by_synd[s])
            sx_assert(total <= o.cost[c], "the pairing is longer than a consistent correction");
    }
#elif PROP == 5
    // a decoder that has already decoded other shots answers as a fresh one
    Mwpm m = make_mwpm(g, true), fresh = make_mwpm(g, true);
    auto d0 = dets_of(s0, g.n);
    int kind = sx_choose("earlier", 0, 2);
    try {
        if (kind == 0)
            decode_detection_events_for_up_to_64_observables(m, d0, false);
        if (kind == 1) {
            std::vector<int64_t> ed;
            decode_detection_events_to_edges(m, d0, ed);
        }
        if (kind == 2)
            decode_detection_events_to_match_edges(m, d0);
    } catch (const std::invalid_argument&) {
        sx_reach("earlier shot rejected");
    }
    MatchingResult rf;
    bool a = ok_decode(m, dets, r), b = ok_decode(fresh, dets, rf);
    sx_assert(a == b, "a used decoder accepts/rejects a shot differently from a fresh one");
    if (a && b) {
        sx_assert(r.weight == rf.weight, "a used decoder reports a different weight than a fresh one");
        sx_assert(r.obs_mask == rf.obs_mask, "a used decoder predicts different observables than a fresh one");
        std::vector<int64_t> e1, e2;
        decode_detection_events_to_edges(m, dets, e1);
        decode_detection_events_to_edges(fresh, dets, e2);
        sx_assert(e1 == e2, "a used decoder returns different edges than a fresh one");
    }
#elif PROP == 6
    Mwpm m = make_mwpm(g, true);
    int api = sx_choose("api", 0, 3);
    bool threw = false;
    try {
        if (api == 0)
            decode_detection_events_for_up_to_64_observables(m, dets, false);
        if (api == 1) {
            std::vector<uint8_t> bits(g.num_obs + 1);
            total_weight_int w = 0;
            decode_detection_events(m, dets, bits.data(), w, false);
        }
        if (api == 2) {
            std::vector<int64_t> ed;
            decode_detection_events_to_edges(m, dets, ed);
        }
        if (api == 3)
            decode_detection_events_to_match_edges(m, dets);
    } catch (const std::invalid_argument&) {
        threw = true;
    }
    bool neg = false;
    for (auto w : g.w)
        neg |= w < 0;
    sx_assert(threw == (!o.feasible(s) || (api == 3 && neg)), "a syndrome is rejected although it has a correction, or accepted although it has none");
    if (threw)
        sx_reach("rejected");
    // a rejected index leaves the decoder usable too
    if (sx_choose("bad_index", 0, 1)) {
        bool t2 = false;
        std::vector<uint64_t> bad = dets;
        bad.insert(bad.begin() + (bad.size() + 1) / 2, g.n + sx_choose("by", 0, 1) * 1000);
        try {
            if (api == 2) {
                std::vector<int64_t> ed;
                decode_detection_events_to_edges(m, bad, ed);
            } else if (api == 1) {
                std::vector<uint8_t> bits(g.num_obs + 1);
                total_weight_int w = 0;
                decode_detection_events(m, bad, bits.data(), w, false);
            } else
                decode_detection_events_for_up_to_64_observables(m, bad, false);
        } catch (const std::invalid_argument&) {
            t2 = true;
        }
        sx_assert(t2, "a detection event outside the graph was accepted");
    }
    if (o.feasible(s0)) {
        bool ok = ok_decode(m, dets_of(s0, g.n), r);
        sx_assert(ok, "a shot after a rejected one was rejected although it has a correction");
        if (ok) {
            for (auto c : o.by_synd[s0])
                sx_assert(r.weight <= o.cost[c], "a shot after a rejected one is decoded with excess weight");
            sx_assert(o.consistent(s0, r.obs_mask), "a shot after a rejected one predicts observables of no correction");
        }
    }
#elif PROP == 7
    // negative weights: every decoding result still minimises the signed total
    Mwpm m = make_mwpm(g, true);
    bool ok = ok_decode(m, dets, r);
    sx_assert(ok == o.feasible(s), "a syndrome is rejected although it has a correction, or accepted although it has none");
    if (ok && o.feasible(s)) {
        for (auto c : o.by_synd[s])
            sx_assert(r.weight <= o.cost[c], "reported weight exceeds that of a consistent correction");
        assert_optimal_mask(g, o, s, r.obs_mask, "predicted observables are not those of any correction of this syndrome",
                            "predicted observables belong to a correction that is not of minimum weight");
        if (o.consistent(s, r.obs_mask))
            sx_assert(r.weight == o.cost[r.obs_mask], "reported weight is not that of the predicted correction");
        std::vector<int64_t> edges;
        decode_detection_events_to_edges(m, dets, edges);
        assert_optimal_mask(g, o, s, edge_mask(g, edges, true), "the edges returned do not produce the syndrome",
                            "the edges returned are not of minimum total weight");
        std::vector<uint8_t> bits(g.num_obs, 0);
        total_weight_int w = 0;
        decode_detection_events(m, dets, bits.data(), w, false);
        sx_assert(w == r.weight, "the bit-array decoder reports another weight");
        for (size_t i = 0; i < g.num_obs; i++)
            sx_assert((r.obs_mask >> i & 1) == bits[i], "the bit-array decoder predicts other observables");
        bool neg = false, threw = false;
        for (auto w2 : g.w)
            neg |= w2 < 0;
        try {
            decode_detection_events_to_match_edges(m, dets);
        } catch (const std::invalid_argument&) {
            threw = true;
        }
        sx_assert(threw == neg, "decoding to matched events must be refused exactly when a weight is negative");
    }
#elif PROP == 8
    Inst h = many_observables(g);
    Mwpm m = make_mwpm(h, true), few = make_mwpm(g, false);
    bool ok = true;
    std::vector<uint8_t> bits(h.num_obs, 0);
    total_weight_int w = 0;
    try {
        decode_detection_events(m, dets, bits.data(), w, false);
    } catch (const std::invalid_argument&) {
        ok = false;
    }
    bool ok2 = ok_decode(few, dets, r);
    sx_assert(ok == ok2, "with more than 64 observables another set of syndromes is accepted");
    if (ok && ok2) {
        sx_assert(w == r.weight, "with more than 64 observables another weight is reported");
        uint64_t mask = 0;
        std::vector<uint8_t> left = bits;
        for (size_t i = 0; i < h.obs.size(); i++) {
            if (bits[h.obs[i][0]])
                mask |= uint64_t{1} << i;
            left[h.obs[i][0]] = 0;
        }
        for (auto b : bits)
            sx_assert(b <= 1, "an observable entry is neither 0 nor 1");
        for (auto b : left)
            sx_assert(b == 0, "an observable no edge carries is flipped");
        assert_optimal_mask(g, o, s, mask, "with more than 64 observables the prediction is that of no correction",
                            "with more than 64 observables the prediction is not that of a minimum-weight correction");
        // predictions are XORed into the caller's array and repeatable
        std::vector<uint8_t> bits2(h.num_obs, 0);
        total_weight_int w2 = 0;
        decode_detection_events(m, dets, bits2.data(), w2, false);
        sx_assert(bits2 == bits && w2 == w, "repeating a shot changes the answer");
    }
#elif PROP == 20
    // decoding does not accumulate memory: the same shots again leave no more memory in use than before
    Mwpm m = make_mwpm(g, true);
    int kind = sx_choose("api", 0, 3);
    std::vector<uint64_t> d[2] = {dets, dets_of(s0, g.n)};
    std::vector<int64_t> ed;
    ed.reserve(64);
    std::vector<uint8_t> bits(g.num_obs + 1);
    uint64_t before = 0;
    for (int rep = 0; rep < 5; rep++) {
        for (auto& x : d) {
            try {
                total_weight_int w = 0;
                ed.clear();
                if (kind == 0)
                    decode_detection_events_for_up_to_64_observables(m, x, false);
                if (kind == 1)
                    decode_detection_events_to_edges(m, x, ed);
                if (kind == 2)
                    decode_detection_events_to_match_edges(m, x);
                if (kind == 3)
                    decode_detection_events(m, x, bits.data(), w, false);
            } catch (const std::invalid_argument&) {
                sx_reach("rejected");
            }
        }
        if (rep == 1)
            before = sx_live_bytes();
    }
    sx_assert(sx_live_bytes() <= before, "memory in use keeps growing when the same shots are decoded again");
#else
#error "PROP not handled here"
#endif
    sx_reach("end");
}

// ---------------------------------------------------------------------------------------------- instance families
#ifndef WLO
#define WLO 0
#endif
#ifndef WHI
#define WHI (1 << 24)
#endif
/// the earlier/later shot used by the history properties
static uint64_t other(int n, uint64_t s) {
#if PROP == 5 || PROP == 6 || PROP == 20
    uint64_t all = (uint64_t{1} << n) - 1;
    uint64_t c[4] = {all, all >> 1, all & 0x5555, 3};
    return c[sx_choose("other", 0, 3)];
#elif PROP == 3
    return 1;
#else
    return 0;
#endif
}
static void fam(int n, std::vector<Ed> e, int64_t synd) {
    uint64_t s = synd >= 0 ? synd : sx_choose("syndrome", 0, (1 << n) - 1);
    uint64_t s0 = other(n, s);
    Inst g = sym_inst(n, e, WLO, WHI);
    body(g, s, s0);
}
HARNESS(k4) { fam(4, {{0, 1}, {0, 2}, {0, 3}, {1, 2}, {1, 3}, {2, 3}}, 15); }
HARNESS(pair) { fam(2, {{0, 1}, {0, -1}, {1, -1}}, -1); }
HARNESS(tri) { fam(3, {{0, 1}, {0, 2}, {1, 2}}, -1); }
HARNESS(k3_bdry1) { fam(3, {{0, 1}, {0, 2}, {1, 2}, {0, -1}}, -1); }
HARNESS(k3_bdry3) { fam(3, {{0, 1}, {0, 2}, {1, 2}, {0, -1}, {1, -1}, {2, -1}}, -1); }
HARNESS(chain3) { fam(3, {{0, -1}, {0, 1}, {1, 2}, {2, -1}}, -1); }
HARNESS(chain4) { fam(4, {{0, -1}, {0, 1}, {1, 2}, {2, 3}, {3, -1}}, -1); }
HARNESS(chain5) { fam(5, {{0, -1}, {0, 1}, {1, 2}, {2, 3}, {3, 4}, {4, -1}}, -1); }
HARNESS(cycle5) { fam(5, {{0, 1}, {1, 2}, {2, 3}, {3, 4}, {4, 0}}, 15); }
HARNESS(cycle4) { fam(4, {{0, 1}, {1, 2}, {2, 3}, {3, 0}}, -1); }
HARNESS(cycle5b) { fam(5, {{0, 1}, {1, 2}, {2, 3}, {3, 4}, {4, 0}, {0, -1}}, 31); }
HARNESS(tri_tail) { fam(4, {{0, 1}, {1, 2}, {0, 2}, {2, 3}, {3, -1}}, 7); }
HARNESS(star4) { fam(4, {{0, 1}, {0, 2}, {0, 3}, {1, -1}, {2, 3}}, -1); }
HARNESS(two_comp) { fam(5, {{0, 1}, {2, 3}, {3, 4}, {4, -1}}, -1); }

// mined instances: every weight within SPREAD of its base
#ifndef SPREAD
#define SPREAD 1
#endif
static void mined_case(int k, uint32_t mask, int spread) {
    const Mined& m = *mined(k);
    uint64_t s0 = other(m.n, m.synd);
    std::vector<std::array<int64_t, 2>> r;
    for (size_t i = 0; i < m.w.size(); i++) {
        int sp = mask >> i & 1 ? spread : 0;
        int64_t lo = m.w[i] - sp;
        if (lo < 0 && WLO >= 0)
            lo = 0;
        r.push_back({lo, m.w[i] + sp});
    }
    Inst g = mixed_inst(m.n, m.e, r);
    body(g, m.synd, s0);
}
/// all weights of the instances with up to nine edges
HARNESS(mined_small) {
    static const int ids[] = {0, 1, 3, 4, 5, 6, 8, 9, 10, 11, 13, 14, 15, 17, 18};
    mined_case(ids[sx_choose("instance", 0, 14)], ~0u, SPREAD);
}
/// the larger instances: alternate halves of the weights
HARNESS(mined_big) {
    static const int ids[] = {2, 7, 12, 16, 19};
    int k = ids[sx_choose("instance", 0, 4)];
    mined_case(k, sx_choose("half", 0, 1) ? 0xaaaa : 0x5555, SPREAD);
}
/// a few weights over a wide range
HARNESS(mined_wide) {
    int k = sx_choose("instance", 0, NUM_MINED - 1);
    int j = sx_choose("window", 0, (int)mined(k)->w.size() - 3);
    mined_case(k, 7u << j, 24);
}
/// every instance, one weight moving: for properties that decode several shots per path
HARNESS(mined_hist) {
    int k = sx_choose("instance", 0, NUM_MINED - 1);
    const Mined& m = *mined(k);
    int j = sx_choose("edge", 0, TIER ? (int)m.w.size() - 1 : 2);
    if (!TIER)
        j = (j * 5 + k) % (int)m.w.size();
    mined_case(k, 1u << j, TIER ? 12 : 4);
}
/// each instance, every syndrome, one weight moving
HARNESS(mined_synd) {
    static const int ids[] = {0, 3, 5, 10, 14, 15, 17};
    int k = ids[sx_choose("instance", 0, 6)];
    Mined m = *mined(k);
    m.synd = sx_choose("syndrome", 0, (1 << m.n) - 1);
    uint64_t s0 = other(m.n, m.synd);
    std::vector<std::array<int64_t, 2>> r;
    int j = sx_choose("edge", 0, (int)m.w.size() - 1);
    for (size_t i = 0; i < m.w.size(); i++)
        r.push_back({(int)i == j ? (WLO < 0 ? -12 : 0) : m.w[i], (int)i == j ? 24 : m.w[i]});
    Inst g = mixed_inst(m.n, m.e, r);
    body(g, m.synd, s0);
}

// instances on which single changes of the decoder were seen to give wrong answers (see mined2.h): one weight moving around its base
#ifndef CSP
#define CSP 4
#endif
#ifndef CWIN
#define CWIN 1
#endif
static void campaign_case(const Camp& m, bool neg) {
    std::vector<std::array<int64_t, 2>> r;
    int E = (int)m.w.size();
    int j = sx_choose("edge", 0, E - 1);
    for (int i = 0; i < E; i++) {
        int sp = (i - j + E) % E < CWIN ? CSP : 0;
        int64_t lo = m.w[i] - sp;
        if (lo < 0 && !neg)
            lo = 0;
        r.push_back({lo, m.w[i] + sp});
    }
    Inst g = mixed_inst(m.n, m.e, r);
    body(g, m.synd, m.earlier ? m.earlier : other(m.n, m.synd));
}
HARNESS(campaign) { campaign_case(camp_single()[sx_choose("instance", 0, (int)camp_single().size() - 1)], false); }
HARNESS(campaign_hist) { campaign_case(camp_hist()[sx_choose("instance", 0, (int)camp_hist().size() - 1)], false); }
HARNESS(campaign_neg) { campaign_case(camp_neg()[sx_choose("instance", 0, (int)camp_neg().size() - 1)], true); }
