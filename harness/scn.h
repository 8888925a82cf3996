// Shared pieces of the decoding harnesses: instances with symbolic weights and an exhaustive oracle over edge subsets.
#pragma once
#include <array>
#include <set>
#include <stdexcept>
#include <string>
#include <vector>

#include "pymatching/sparse_blossom/driver/mwpm_decoding.h"
#include "sx.h"

#ifndef TIER
#define TIER 0
#endif
#ifndef PROP
#define PROP 0
#endif
// an assertion that belongs to property number P; active when the check of that property (or no particular one) is built
#define PASSERT(P, cond, msg)                 \
    do {                                      \
        if (PROP == 0 || PROP == (P))         \
            sx_assert((cond), msg);           \
    } while (0)

struct Ed {
    int u, v;  // v == -1: boundary edge
};
struct Inst {
    int n = 0;
    std::vector<Ed> e;
    std::vector<int64_t> w;                // integer weights as given to the graph (even, possibly negative)
    std::vector<std::vector<size_t>> obs;  // default: edge i flips observable i
    size_t num_obs = 0;
};
static inline std::string nm(const char* p, long i) {
    return std::string(p) + std::to_string(i);
}
/// instance with every weight symbolic in [lo,hi] (before doubling)
static inline Inst sym_inst(int n, std::vector<Ed> e, int64_t lo, int64_t hi) {
    Inst g;
    g.n = n;
    g.e = e;
    for (size_t i = 0; i < e.size(); i++) {
        g.w.push_back(2 * sx_int(nm("w", i).c_str(), lo, hi));
        g.obs.push_back({i});
    }
    g.num_obs = e.size();
    return g;
}
/// instance with weights base[i], except that those with span[i] > 0 are symbolic in [base[i]-span[i], base[i]+span[i]] (clamped below at lo)
static inline Inst mixed_inst(int n, std::vector<Ed> e, std::vector<std::array<int64_t, 2>> range) {
    Inst g;
    g.n = n;
    g.e = e;
    for (size_t i = 0; i < e.size(); i++) {
        int64_t lo = range[i][0], hi = range[i][1];
        g.w.push_back(2 * (lo == hi ? lo : sx_int(nm("w", i).c_str(), lo, hi)));
        g.obs.push_back({i});
    }
    g.num_obs = e.size();
    return g;
}
static inline pm::MatchingGraph flood_graph(const Inst& g) {
    pm::MatchingGraph mg(g.n, g.num_obs);
    for (size_t i = 0; i < g.e.size(); i++) {
        if (g.e[i].v < 0)
            mg.add_boundary_edge(g.e[i].u, (pm::signed_weight_int)g.w[i], g.obs[i]);
        else
            mg.add_edge(g.e[i].u, g.e[i].v, (pm::signed_weight_int)g.w[i], g.obs[i]);
    }
    return mg;
}
static inline pm::SearchGraph search_graph(const Inst& g) {
    pm::SearchGraph sg(g.n);
    for (size_t i = 0; i < g.e.size(); i++) {
        if (g.e[i].v < 0)
            sg.add_boundary_edge(g.e[i].u, (pm::signed_weight_int)g.w[i], g.obs[i]);
        else
            sg.add_edge(g.e[i].u, g.e[i].v, (pm::signed_weight_int)g.w[i], g.obs[i]);
    }
    return sg;
}
static inline pm::Mwpm make_mwpm(const Inst& g, bool with_search) {
    if (with_search) {
        pm::Mwpm m(pm::GraphFlooder(flood_graph(g)), pm::SearchFlooder(search_graph(g)));
        m.flooder.sync_negative_weight_observables_and_detection_events();
        return m;
    }
    pm::Mwpm m{pm::GraphFlooder(flood_graph(g))};
    m.flooder.sync_negative_weight_observables_and_detection_events();
    return m;
}
static inline uint64_t syndrome_of(const std::vector<uint64_t>& dets) {
    uint64_t s = 0;
    for (auto d : dets)
        s ^= uint64_t{1} << d;
    return s;
}
static inline std::vector<uint64_t> dets_of(uint64_t synd, int n) {
    std::vector<uint64_t> r;
    for (int i = 0; i < n; i++)
        if (synd >> i & 1)
            r.push_back(i);
    return r;
}
/// Every edge subset, its syndrome and its cost.
struct Oracle {
    const Inst& g;
    std::vector<uint64_t> synd;
    std::vector<int64_t> cost;
    std::vector<std::vector<uint32_t>> by_synd;
    explicit Oracle(const Inst& g) : g(g) {
        size_t E = g.e.size();
        synd.resize(size_t{1} << E);
        cost.resize(size_t{1} << E);
        by_synd.resize(size_t{1} << g.n);
        synd[0] = 0;
        cost[0] = 0;
        by_synd[0].push_back(0);
        for (uint32_t c = 1; c < (uint32_t{1} << E); c++) {
            uint32_t r = c & (c - 1);
            int i = __builtin_ctz(c);
            synd[c] = synd[r] ^ (uint64_t{1} << g.e[i].u) ^ (g.e[i].v >= 0 ? uint64_t{1} << g.e[i].v : 0);
            cost[c] = cost[r] + g.w[i];
            by_synd[synd[c]].push_back(c);
        }
    }
    bool feasible(uint64_t s) const {
        return !by_synd[s].empty();
    }
    /// weight is at most the cost of every correction for the syndrome
    void assert_minimal(int prop, uint64_t s, int64_t weight) const {
        for (auto c : by_synd[s])
            PASSERT(prop, weight <= cost[c], "weight exceeds that of a consistent correction");
    }
    /// weight is attained by some consistent correction: combined with assert_minimal this is exact optimality
    bool consistent(uint64_t s, uint64_t mask) const {
        return mask < synd.size() && synd[mask] == s;
    }
};
