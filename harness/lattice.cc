// Larger graphs: planar and periodic lattices with up to 25 detectors and ten detection events. Most weights are fixed pseudo-random numbers, one or two
// are symbolic. Oracle: shortest distances, then the best pairing of the detection events by dynamic programming over subsets.
#include <algorithm>
#include "scn.h"
using namespace pm;
#ifndef NSYM
#define NSYM 1
#endif
#ifndef SEEDS
#define SEEDS (TIER ? 40 : 10)
#endif
static const int64_t INF = int64_t{1} << 50;
struct Lcg {
    uint64_t s;
    uint32_t next(uint32_t n) {
        s = s * 6364136223846793005ull + 1442695040888963407ull;
        return (uint32_t)((s >> 33) % n);
    }
};
struct Lat {
    Inst g;
    std::vector<uint64_t> dets;
    std::vector<int64_t> d0;  // (n+1)^2 distances with the symbolic edges removed; node n is the boundary
    std::vector<int> sym;     // symbolic edges
    int64_t& D(int u, int v) {
        return d0[u * (g.n + 1) + v];
    }
};
/// shortest distances between the detection events and the boundary
static void distances(Lat& L) {
    Inst& g = L.g;
    size_t E = g.e.size();
    int m = g.n + 1;
    L.d0.assign(m * m, INF);
    for (int i = 0; i < m; i++)
        L.D(i, i) = 0;
    for (size_t i = 0; i < E; i++) {
        if (std::find(L.sym.begin(), L.sym.end(), (int)i) != L.sym.end())
            continue;
        int u = g.e[i].u, v = g.e[i].v < 0 ? g.n : g.e[i].v;
        if (g.w[i] < L.D(u, v))
            L.D(u, v) = L.D(v, u) = g.w[i];
    }
    for (int x = 0; x < m; x++)
        for (int u = 0; u < m; u++)
            for (int v = 0; v < m; v++)
                if (L.D(u, x) + L.D(x, v) < L.D(u, v))
                    L.D(u, v) = L.D(u, x) + L.D(x, v);
    // the boundary is a node of the oracle: passing through it is matching to it twice, which a correction may do
    for (int j : L.sym) {
        int a = g.e[j].u, b = g.e[j].v < 0 ? g.n : g.e[j].v;
        std::vector<int64_t> old = L.d0;
        // only the entries the oracle uses: between detection events and the boundary (all entries while further edges are to come)
        std::vector<int> need(L.dets.begin(), L.dets.end());
        need.push_back(g.n);
        if (j != L.sym.back())
            for (auto q : L.sym) {
                need.push_back(g.e[q].u);
                if (g.e[q].v >= 0)
                    need.push_back(g.e[q].v);
            }
        for (int u : need)
            for (int v : need) {
                int64_t x = std::min(old[u * m + a] + old[b * m + v], old[u * m + b] + old[a * m + v]) + g.w[j];
                if (x < L.D(u, v))
                    L.D(u, v) = x;
            }
    }
}
static Lat lattice(int R, int C, bool periodic, int seed, int dist, int hi) {
    Lat L;
    Lcg r{(uint64_t)seed * 7919 + R * 131 + C * 17 + periodic * 5 + dist};
    r.next(2);
    Inst& g = L.g;
    g.n = R * C;
    auto at = [&](int i, int j) { return ((i + R) % R) * C + (j + C) % C; };
    for (int i = 0; i < R; i++)
        for (int j = 0; j < C; j++) {
            if (j + 1 < C || periodic)
                g.e.push_back({at(i, j), at(i, j + 1)});
            if (i + 1 < R || periodic)
                g.e.push_back({at(i, j), at(i + 1, j)});
        }
    if (!periodic)
        for (int i = 0; i < R; i++) {
            g.e.push_back({at(i, 0), -1});
            if (C > 1)
                g.e.push_back({at(i, C - 1), -1});
        }
    // shuffled edge order, so that the position of an edge says nothing
    for (size_t i = g.e.size(); i > 1; i--)
        std::swap(g.e[i - 1], g.e[r.next(i)]);
    size_t E = g.e.size();
    for (size_t i = 0; i < E; i++) {
        int64_t w = dist == 0 ? 1 : dist == 1 ? r.next(13) : dist == 2 ? r.next(4) * r.next(4) : 1 + r.next(1 << 20);
        g.w.push_back(2 * w);
        g.obs.push_back({i});
        if (r.next(2) && g.e[i].v >= 0)
            std::swap(g.e[i].u, g.e[i].v);
    }
    g.num_obs = E;
    for (int k = 0; k < NSYM; k++) {
        int j = r.next(E);
        if (k && j == L.sym[0])
            j = (j + 1) % E;
        L.sym.push_back(j);
        g.w[j] = 2 * sx_int(nm("w", k).c_str(), 0, dist == 3 ? 1 << 20 : hi);
    }
    // detection events: an even number of them, in any order
    std::vector<uint64_t> all(g.n);
    for (int i = 0; i < g.n; i++)
        all[i] = i;
    for (size_t i = all.size(); i > 1; i--)
        std::swap(all[i - 1], all[r.next(i)]);
    size_t k = 4 + r.next(7);
    if (periodic)
        k &= ~1u;
    L.dets.assign(all.begin(), all.begin() + std::min<size_t>(k, g.n));
    distances(L);
    return L;
}
/// minimum weight of a correction, INF if there is none
static int64_t best_pairing(Lat& L, const std::vector<uint64_t>& dets) {
    size_t k = dets.size();
    std::vector<int64_t> f(size_t{1} << k, INF);
    f[0] = 0;
    for (uint32_t s = 1; s < (1u << k); s++) {
        int i = __builtin_ctz(s);
        uint32_t r = s & (s - 1);
        int64_t best = INF;
        int64_t db = L.D(dets[i], L.g.n);
        if (db < INF / 2 && f[r] < INF / 2 && f[r] + db < best)
            best = f[r] + db;
        for (size_t j = i + 1; j < k; j++)
            if (r >> j & 1) {
                int64_t x = f[r & ~(1u << j)], y = L.D(dets[i], dets[j]);
                if (x < INF / 2 && y < INF / 2 && x + y < best)
                    best = x + y;
            }
        f[s] = best;
    }
    return f[(size_t{1} << k) - 1];
}
static void check_mask(const Inst& g, const std::vector<uint64_t>& dets, uint64_t mask, int64_t want) {
    std::vector<uint8_t> syn(g.n, 0);
    int64_t cost = 0;
    for (size_t i = 0; i < g.e.size(); i++)
        if (mask >> i & 1) {
            syn[g.e[i].u] ^= 1;
            if (g.e[i].v >= 0)
                syn[g.e[i].v] ^= 1;
            cost += g.w[i];
        }
    for (auto d : dets)
        syn[d] ^= 1;
    for (auto x : syn)
        sx_assert(!x, "the correction does not produce the syndrome");
    sx_assert(cost == want, "the correction is not of minimum weight");
}
static uint64_t edges_mask(const Inst& g, const std::vector<int64_t>& edges) {
    uint64_t mask = 0;
    for (size_t i = 0; i + 1 < edges.size(); i += 2) {
        int f = -1;
        for (size_t k = 0; k < g.e.size(); k++)
            if ((g.e[k].u == edges[i] && g.e[k].v == edges[i + 1]) || (g.e[k].v == edges[i] && g.e[k].u == edges[i + 1]))
                f = k;
        sx_assert(f >= 0, "an output edge is not an edge of the graph");
        if (f < 0)
            continue;
        sx_assert(!(mask >> f & 1), "an edge appears twice in the output");
        mask ^= uint64_t{1} << f;
    }
    return mask;
}
static void run(Lat L, int64_t want) {
    const Inst& g = L.g;
    MatchingResult r;
#if PROP == 3
    Mwpm m = make_mwpm(g, true);
    for (int rep = 0; rep < 2; rep++) {
        std::vector<int64_t> edges;
        decode_detection_events_to_edges(m, L.dets, edges);
        check_mask(g, L.dets, edges_mask(g, edges), want);
    }
#elif PROP == 4
    Mwpm m = make_mwpm(g, false);
    decode_detection_events_to_match_edges(m, L.dets);
    uint64_t seen = 0;
    int64_t total = 0;
    auto& nodes = m.flooder.graph.nodes;
    for (auto& me : m.flooder.match_edges) {
        int64_t u = me.loc_from - &nodes[0], v = me.loc_to ? me.loc_to - &nodes[0] : g.n;
        sx_assert(u >= 0 && u < g.n && v >= 0 && v <= g.n, "a pair names a node outside the graph");
        sx_assert(!(seen >> u & 1), "a detection event is matched twice");
        seen |= uint64_t{1} << u;
        if (v < g.n) {
            sx_assert(!(seen >> v & 1), "a detection event is matched twice");
            seen |= uint64_t{1} << v;
        }
        total += L.D(u, v);
    }
    sx_assert(seen == syndrome_of(L.dets), "not exactly the detection events are matched");
    sx_assert(total == want, "the pairing is not of minimum length");
#elif PROP == 5
    Mwpm m = make_mwpm(g, true), fresh = make_mwpm(g, true);
    std::vector<uint64_t> half(L.dets.begin(), L.dets.begin() + L.dets.size() / 2), rest(L.dets.begin() + L.dets.size() / 2, L.dets.end());
    for (auto* d : {&half, &rest, &L.dets}) {
        try {
            decode_detection_events_for_up_to_64_observables(m, *d, false);
        } catch (const std::invalid_argument&) {
        }
    }
    r = decode_detection_events_for_up_to_64_observables(m, L.dets, false);
    MatchingResult f = decode_detection_events_for_up_to_64_observables(fresh, L.dets, false);
    sx_assert(r.weight == f.weight && r.obs_mask == f.obs_mask, "a used decoder answers differently from a fresh one");
    std::vector<int64_t> e1, e2;
    decode_detection_events_to_edges(m, L.dets, e1);
    decode_detection_events_to_edges(fresh, L.dets, e2);
    sx_assert(e1 == e2, "a used decoder returns different edges than a fresh one");
#elif PROP == 7
    Mwpm m = make_mwpm(g, true);
    r = decode_detection_events_for_up_to_64_observables(m, L.dets, false);
    sx_assert(r.weight == want, "reported weight is not the minimum");
    check_mask(g, L.dets, r.obs_mask, want);
    std::vector<int64_t> edges;
    decode_detection_events_to_edges(m, L.dets, edges);
    check_mask(g, L.dets, edges_mask(g, edges), want);
    Inst h = g;
    h.num_obs = 70;
    Mwpm m2 = make_mwpm(h, true);
    std::vector<uint8_t> bits(h.num_obs, 0);
    total_weight_int w = 0;
    decode_detection_events(m2, L.dets, bits.data(), w, false);
    uint64_t mask = 0;
    for (size_t i = 0; i < g.e.size(); i++)
        mask |= (uint64_t)(bits[i] & 1) << i;
    sx_assert(w == want, "reported weight is not the minimum");
    check_mask(g, L.dets, mask, want);
#elif PROP == 8
    Inst h = g;
    h.num_obs = 70;
    Mwpm m = make_mwpm(h, true);
    std::vector<uint8_t> bits(h.num_obs, 0);
    total_weight_int w = 0;
    decode_detection_events(m, L.dets, bits.data(), w, false);
    uint64_t mask = 0;
    for (size_t i = 0; i < g.e.size(); i++)
        mask |= (uint64_t)(bits[i] & 1) << i;
    for (size_t i = 0; i < 70; i++)
        sx_assert(bits[i] <= (i < g.e.size() ? 1 : 0), "an observable is flipped that no edge carries, or an entry is neither 0 nor 1");
    sx_assert(w == want, "reported weight is not the minimum");
    check_mask(g, L.dets, mask, want);
#else
    Mwpm m = make_mwpm(g, false);
    r = decode_detection_events_for_up_to_64_observables(m, L.dets, false);
    PASSERT(1, r.weight == want, "reported weight is not the minimum");
    if (PROP != 1)
        check_mask(g, L.dets, r.obs_mask, want);
#endif
    sx_reach("end");
}
#define LAT(name, R, C, per, hi) \
    HARNESS(name) {                                                                                              \
        Lat L = lattice(R, C, per, sx_choose("seed", 0, SEEDS - 1), sx_choose("weights", 0, 3), hi);             \
        int64_t want = best_pairing(L, L.dets);                                                                  \
        run(L, want);                                                                                            \
    }
LAT(planar4, 4, 4, false, 16)
LAT(planar5, 5, 5, false, 16)
LAT(torus4, 4, 4, true, 16)
LAT(torus5, 5, 5, true, 16)
LAT(strip, 2, 9, false, 16)
LAT(ring, 1, 24, true, 16)

// Deep instances: graphs of 7 to 16 detectors on which nested blossoms, long alternating trees and every kind of shattering occur (tools/deep_tab.cc).
// One weight is symbolic; the minimum weight of a correction without and with that edge is tabulated.
#include "mined3.h"
static const int DEEP_N = sizeof(DEEP_AT) / sizeof(DEEP_AT[0]);
#ifndef SPREAD
#define SPREAD (TIER ? 12 : 2)
#endif
static void deep_body(int lo, int hi) {
    int q = sx_choose("instance", lo, hi);
    const short* p = DEEP + DEEP_AT[q];
    Lat L;
    Inst& g = L.g;
    g.n = p[0];
    int E = p[1], k = p[2];
    p += 3;
    int j = TIER ? sx_choose("edge", 0, 63) : q * 7 % E;
    sx_assume(j < E);
    int64_t want = 0;
    for (int i = 0; i < E; i++, p += 5) {
        g.e.push_back({p[0], p[1]});
        g.obs.push_back({(size_t)i});
        int64_t w = p[2];
        if (i == j) {
            w = 2 * sx_int("w", PROP == 7 ? -2 * SPREAD : std::max<int64_t>(0, TIER ? 0 : w / 2 - SPREAD), PROP == 7 && !TIER ? SPREAD : w / 2 + SPREAD);
            int64_t a0 = p[3] < 0 ? INF : p[3], a1 = p[4] < 0 ? INF : p[4] + w;
            want = a1 < a0 ? a1 : a0;
        }
        g.w.push_back(w);
    }
    g.num_obs = E;
    L.sym.push_back(j);
    L.dets.assign(p, p + k);
#if PROP == 7
    // some of the other edges get the opposite weight: the corrections are those of the given instance with these edges toggled
    Lcg r{(uint64_t)q * 977 + 5};
    r.next(2);
    int per = 2 + r.next(5);
    for (int i = 0; i < E; i++) {
        if (i == j || r.next(per))
            continue;
        want -= g.w[i];
        g.w[i] = -g.w[i];
        for (int v : {g.e[i].u, g.e[i].v})
            if (v >= 0) {
                auto it = std::find(L.dets.begin(), L.dets.end(), (uint64_t)v);
                if (it != L.dets.end())
                    L.dets.erase(it);
                else
                    L.dets.insert(L.dets.begin() + r.next(L.dets.size() + 1), v);
            }
    }
#endif
#if PROP == 4
    distances(L);
#endif
    run(L, want);
}
HARNESS(deep) {
    deep_body(0, DEEP_N - 1);
}
