// Many detection events at once: hundreds of nodes, dozens of regions, trees and blossoms alive together, nodes with many neighbours, long histories.
// All weights but one or two are fixed pseudo-random numbers. The graphs are such that the minimum is easy to state:
//  line   a path with a boundary edge at either end: every syndrome has exactly two corrections, complements of each other
//  comps  many small components (triangles, 5-cycles, paths), each solved by enumeration
//  hub    one node with many neighbours, each of which also has a boundary edge
#include <algorithm>
#include <functional>
#include <map>
#include "scn.h"
using namespace pm;
struct Lcg {
    uint64_t s;
    uint32_t next(uint32_t n) {
        s = s * 6364136223846793005ull + 1442695040888963407ull;
        return (uint32_t)((s >> 33) % n);
    }
};
#if PROP == 7
static const bool NEGATIVE = true;
#else
static const bool NEGATIVE = false;
#endif
struct Crowd {
    Inst g;
    std::vector<uint64_t> dets;
    std::vector<int> comp_of_edge;
    std::vector<std::vector<int>> comps;  // edges of each component (empty: not enumerated)
    std::vector<int64_t> best_of;         // minimum of each component
    int64_t best = 0;
    std::vector<std::vector<uint8_t>> two;  // line: the two corrections, as edge flags
    std::vector<int64_t> cost2;
    bool is_line = false;
    Lcg r{1};
    int64_t weight(int dist) {
        int64_t w = dist == 0 ? r.next(3) : dist == 1 ? 1 + r.next(30) : 1 + r.next((1 << 24) - 1);
        return NEGATIVE && r.next(3) == 0 ? -w : w;
    }
    void edge(int u, int v, int64_t w, int comp) {
        if (v >= 0 && r.next(2))
            std::swap(u, v);
        g.e.push_back({u, v});
        g.w.push_back(2 * w);
        g.obs.push_back({});
        comp_of_edge.push_back(comp);
    }
};
static int64_t sym(const char* name, int dist) {
    int64_t hi = dist == 0 ? 6 : dist == 1 ? 60 : (1 << 24) - 1;
    return sx_int(name, NEGATIVE ? -hi : 0, hi);
}
static int64_t lower(int64_t a, int64_t b) {
    return sx_ite(a < b, a, b);
}
static Crowd line(int n, int seed, int dist) {
    Crowd c;
    c.is_line = true;
    c.r.s = seed * 7919 + n;
    c.r.next(2);
    c.g.n = n;
    int at = c.r.next(n + 1);
    for (int i = 0; i <= n; i++) {
        int64_t w = c.weight(dist);
        if (i == at)
            w = sym("w", dist);
        if (i == 0)
            c.edge(0, -1, w, 0);
        else
            c.edge(i - 1, i < n ? i : -1, w, 0);
    }
    uint32_t density = 1 + c.r.next(4);
    std::vector<uint8_t> flag(n + 1, 0);
    std::vector<uint8_t> fire(n, 0);
    for (int i = 0; i < n; i++)
        fire[i] = c.r.next(4) < density;
    for (int i = 1; i <= n; i++)
        flag[i] = flag[i - 1] ^ fire[i - 1];
    int64_t a = 0, b = 0;
    std::vector<uint8_t> inv(n + 1);
    for (int i = 0; i <= n; i++) {
        inv[i] = !flag[i];
        (flag[i] ? a : b) += c.g.w[i];
    }
    c.two = {flag, inv};
    c.cost2 = {a, b};
    c.best = lower(a, b);
    for (int i = 0; i < n; i++)
        if (fire[i])
            c.dets.push_back(i);
    for (size_t i = c.dets.size(); i > 1; i--)
        std::swap(c.dets[i - 1], c.dets[c.r.next(i)]);
    return c;
}
static Crowd comps(int K, int seed, int dist) {
    Crowd c;
    c.r.s = seed * 104729 + K;
    c.r.next(2);
    int per = 5;
    c.g.n = per * K;
    c.comps.resize(K);
    c.best_of.resize(K);
    int special = c.r.next(K);
    auto node = [&](int k, int i) { return i * K + k; };  // neighbours lie far apart
    for (int k = 0; k < K; k++) {
        int kind = k == special ? c.r.next(3) : c.r.next(4);
        int m = kind == 0 ? 3 : kind == 1 ? 5 : kind == 2 ? 4 : 2;
        std::vector<std::pair<int, int>> es;
        for (int i = 0; i + 1 < m; i++)
            es.push_back({i, i + 1});
        if (kind != 3)
            es.push_back({m - 1, 0});
        if (kind == 2)
            es.push_back({0, 2});
        bool bd = (m & 1) || c.r.next(2);
        if (bd)
            es.push_back({(int)c.r.next(m), -1});
        for (size_t i = 0; i < es.size(); i++) {
            int64_t w = c.weight(dist);
            if (k == special && i == 0)
                w = sym("w", dist);
            c.comps[k].push_back(c.g.e.size());
            c.edge(node(k, es[i].first), es[i].second < 0 ? -1 : node(k, es[i].second), w, k);
        }
        uint32_t fire = (1u << m) - 1;  // all of them: an odd number forms a blossom
        if (c.r.next(4) == 0) {
            fire = c.r.next(1 << m);
            if (!bd && (__builtin_popcount(fire) & 1))
                fire ^= 1;
        }
        for (int i = 0; i < m; i++)
            if (fire >> i & 1)
                c.dets.push_back(node(k, i));
        // every edge subset of the component
        bool first = true;
        for (uint32_t s = 0; s < (1u << es.size()); s++) {
            uint32_t syn = 0;
            int64_t cost = 0;
            for (size_t i = 0; i < es.size(); i++)
                if (s >> i & 1) {
                    syn ^= 1u << es[i].first;
                    if (es[i].second >= 0)
                        syn ^= 1u << es[i].second;
                    cost += c.g.w[c.comps[k][i]];
                }
            if (syn != fire)
                continue;
            c.best_of[k] = first ? cost : k == special ? lower(cost, c.best_of[k]) : std::min(cost, c.best_of[k]);
            first = false;
        }
        c.best += c.best_of[k];
    }
    for (size_t i = c.dets.size(); i > 1; i--)
        std::swap(c.dets[i - 1], c.dets[c.r.next(i)]);
    return c;
}
/// leaf i: spoke weight w_i to the hub, boundary edge b_i. Which spokes are used decides everything; the number of them has the parity of the hub's event.
static Crowd hub(int L, int seed, int dist, int most = 1000) {
    Crowd c;
    c.r.s = seed * 6151 + L;
    c.r.next(2);
    c.g.n = L + 1;
    int h = c.r.next(L + 1), at = c.r.next(2 * L);
    int64_t flip = -1;
    uint32_t parity = 0;
    bool hub_fires = c.r.next(2);
    uint32_t density = 1 + c.r.next(4);
    int64_t sw = sym("w", dist);
    // best choice per leaf is decided on concrete numbers except for the leaf with the symbolic weight, which is tried both ways at the end
    int64_t sum = 0, spoke_s = 0, bdry_s = 0;
    for (int i = 0, leaf = 0; i <= L; i++) {
        if (i == h)
            continue;
        int64_t w = c.weight(dist), b = c.weight(dist);
        bool special = at / 2 == leaf;
        if (special)
            (at & 1 ? w : b) = sw;
        c.edge(i, h, w, 0);
        c.edge(i, -1, b, 0);
        bool fire = most < 1000 ? c.r.next(L) < (uint32_t)most : c.r.next(4) < density;
        if (fire)
            c.dets.push_back(i);
        int64_t use = fire ? w : w + b, no = fire ? b : 0;  // cost with and without the spoke
        if (special) {
            spoke_s = use;
            bdry_s = no;
        } else {
            bool u = use < no;
            parity ^= u;
            sum += u ? use : no;
            int64_t d = u ? no - use : use - no;
            flip = flip < 0 || d < flip ? d : flip;
        }
        leaf++;
    }
    if (hub_fires)
        c.dets.push_back(h);
    // special leaf uses its spoke or not; the others then need the remaining parity, for the price of one flip if it is not theirs
    int64_t with = spoke_s + (parity == (uint32_t)(!hub_fires) ? 0 : flip), without = bdry_s + (parity == (uint32_t)hub_fires ? 0 : flip);
    c.best = 2 * (sum + lower(with, without));
    for (size_t i = c.dets.size(); i > 1; i--)
        std::swap(c.dets[i - 1], c.dets[c.r.next(i)]);
    return c;
}
/// edge flags -> the syndrome must be the shot and the cost the minimum
static void check_flags(const Crowd& c, const std::vector<uint8_t>& used) {
    std::vector<uint8_t> syn(c.g.n, 0);
    int64_t cost = 0;
    for (size_t i = 0; i < c.g.e.size(); i++)
        if (used[i]) {
            syn[c.g.e[i].u] ^= 1;
            if (c.g.e[i].v >= 0)
                syn[c.g.e[i].v] ^= 1;
            cost += c.g.w[i];
        }
    for (auto d : c.dets)
        syn[d] ^= 1;
    bool zero = true;
    for (auto x : syn)
        zero &= !x;
    sx_assert(zero, "the correction does not produce the syndrome");
    sx_assert(cost == c.best, "the correction is not of minimum weight");
}
static std::vector<uint8_t> edge_flags(const Crowd& c, const std::vector<int64_t>& edges) {
    std::map<std::pair<int64_t, int64_t>, int> index;
    for (size_t k = 0; k < c.g.e.size(); k++)
        index[{std::min(c.g.e[k].u, c.g.e[k].v), std::max(c.g.e[k].u, c.g.e[k].v)}] = k;
    std::vector<uint8_t> used(c.g.e.size(), 0);
    for (size_t i = 0; i + 1 < edges.size(); i += 2) {
        auto it = index.find({std::min(edges[i], edges[i + 1]), std::max(edges[i], edges[i + 1])});
        sx_assert(it != index.end(), "an output edge is not an edge of the graph");
        if (it == index.end())
            continue;
        sx_assert(!used[it->second], "an edge appears twice in the output");
        used[it->second] = 1;
    }
    return used;
}
static void run(Crowd c) {
    Inst& g = c.g;
#if PROP == 1
    g.num_obs = 1;
    Mwpm m = make_mwpm(g, false);
    for (int rep = 0; rep < 2; rep++)
        sx_assert(decode_detection_events_for_up_to_64_observables(m, c.dets, false).weight == c.best, "reported weight is not the minimum");
#elif PROP == 2
    // observables: on the line, shared by many edges; elsewhere one for each edge of as many components as fit
    g.num_obs = 64;
    size_t next = 0;
    std::vector<int> checked;
    if (c.is_line) {
        for (size_t i = 0; i < g.e.size(); i++)
            if (i % 3)
                g.obs[i] = {(i * 29 + 7) % 64};
    } else
        for (size_t k = 0; k < c.comps.size() && next + c.comps[k].size() <= 64; k++) {
            checked.push_back(k);
            for (int e : c.comps[k])
                g.obs[e] = {next++};
        }
    Mwpm m = make_mwpm(g, false);
    auto r = decode_detection_events_for_up_to_64_observables(m, c.dets, false);
    if (c.is_line) {
        bool ok = false;
        for (int s = 0; s < 2; s++) {
            uint64_t mask = 0;
            for (size_t i = 0; i < g.e.size(); i++)
                if (c.two[s][i] && !g.obs[i].empty())
                    mask ^= uint64_t{1} << g.obs[i][0];
            ok = ok || (mask == r.obs_mask && c.cost2[s] == c.best);
        }
        sx_assert(ok, "the prediction is that of no minimum-weight correction");
    }
    for (int k : checked) {
        std::map<int, int> syn;
        int64_t cost = 0;
        for (int e : c.comps[k])
            if (r.obs_mask >> g.obs[e][0] & 1) {
                cost += g.w[e];
                syn[g.e[e].u] ^= 1;
                syn[g.e[e].v] ^= 1;
            }
        for (auto d : c.dets)
            if ((int)d % (int)c.comps.size() == k)
                syn[d] ^= 1;
        for (auto& x : syn)
            sx_assert(x.first < 0 || !x.second, "the predicted correction does not produce the syndrome");
        sx_assert(cost == c.best_of[k], "the prediction is that of no minimum-weight correction");
    }
#elif PROP == 3
    g.num_obs = 1;
    Mwpm m = make_mwpm(g, true);
    for (int rep = 0; rep < 2; rep++) {
        std::vector<int64_t> edges;
        decode_detection_events_to_edges(m, c.dets, edges);
        check_flags(c, edge_flags(c, edges));
    }
#elif PROP == 4
    g.num_obs = 1;
    Mwpm m = make_mwpm(g, false);
    decode_detection_events_to_match_edges(m, c.dets);
    std::vector<uint8_t> fire(g.n, 0);
    for (auto d : c.dets)
        fire[d] = 1;
    auto& nodes = m.flooder.graph.nodes;
    std::vector<int64_t> pre(g.n + 2, 0);
    if (c.is_line)
        for (int i = 0; i <= g.n; i++)
            pre[i + 1] = pre[i] + g.w[i];
    int64_t total = 0;
    for (auto& me : m.flooder.match_edges) {
        int64_t u = me.loc_from - &nodes[0], v = me.loc_to ? me.loc_to - &nodes[0] : -1;
        for (auto x : {u, v}) {
            if (x == -1 && x == v)
                continue;
            sx_assert(x >= 0 && x < g.n && fire[x], "a pair names a node without a detection event, or one that is matched twice");
            if (x >= 0 && x < g.n)
                fire[x] = 0;
        }
        if (c.is_line)  // edge i lies to the left of node i
            total += v >= 0 ? pre[std::max(u, v) + 1] - pre[std::min(u, v) + 1] : lower(pre[u + 1], pre[g.n + 1] - pre[u + 1]);
        else if (!c.comps.empty() && v >= 0)
            sx_assert(u % (int64_t)c.comps.size() == v % (int64_t)c.comps.size(), "a pair is not connected");
    }
    for (auto x : fire)
        sx_assert(!x, "a detection event is not matched");
    if (c.is_line)
        sx_assert(total == c.best, "the pairing is not of minimum length");
#elif PROP == 7
    g.num_obs = 1;
    for (size_t i = 0; i < g.e.size(); i += 2)
        g.obs[i] = {0};
    Mwpm m = make_mwpm(g, true);
    auto r = decode_detection_events_for_up_to_64_observables(m, c.dets, false);
    sx_assert(r.weight == c.best, "reported weight is not the minimum");
    std::vector<int64_t> edges;
    decode_detection_events_to_edges(m, c.dets, edges);
    check_flags(c, edge_flags(c, edges));
#elif PROP == 8
    g.num_obs = std::max<size_t>(65, g.e.size());
    for (size_t i = 0; i < g.e.size(); i++)
        g.obs[i] = {g.num_obs - 1 - i};
    Mwpm m = make_mwpm(g, true);
    std::vector<uint8_t> bits(g.num_obs, 0), used(g.e.size(), 0);
    total_weight_int w = 0;
    decode_detection_events(m, c.dets, bits.data(), w, false);
    for (size_t i = 0; i < g.num_obs; i++) {
        sx_assert(bits[i] <= 1, "an entry is neither 0 nor 1");
        if (g.num_obs - 1 - i < used.size())
            used[g.num_obs - 1 - i] = bits[i];
        else
            sx_assert(!bits[i], "an observable is flipped that no edge carries");
    }
    sx_assert(w == c.best, "reported weight is not the minimum");
    check_flags(c, used);
#elif PROP == 5 || PROP == 20
    // a long history: hundreds of shots, some of them refused, by all decoding functions
    g.num_obs = 64;
    for (size_t i = 0; i < g.e.size(); i++)
        g.obs[i] = {i % 64};
    Mwpm m = make_mwpm(g, true), fresh = make_mwpm(g, true);
    int shots = TIER ? 700 : 300;
    for (int k = 0; k < shots; k++) {
        std::vector<uint64_t> d;
        for (auto x : c.dets)
            if (k % 7 ? (x * 31 + k) % 5 == 0 : k % 35 == 0)
                d.push_back(x);
        if (k % 50 == 49)
            d.push_back(g.n + k);
        try {
            if (k % 11 == 3) {
                std::vector<int64_t> edges;
                decode_detection_events_to_edges(m, d, edges);
            } else if (k % 11 == 7)
                decode_detection_events_to_match_edges(m, d);
            else
                decode_detection_events_for_up_to_64_observables(m, d, false);
        } catch (const std::invalid_argument&) {
        }
    }
    auto r = decode_detection_events_for_up_to_64_observables(m, c.dets, false), f = decode_detection_events_for_up_to_64_observables(fresh, c.dets, false);
    sx_assert(r.weight == f.weight && r.obs_mask == f.obs_mask, "a used decoder answers differently from a fresh one");
    sx_assert(r.weight == c.best, "a used decoder misses the minimum");
    std::vector<int64_t> e1, e2;
    decode_detection_events_to_edges(m, c.dets, e1);
    decode_detection_events_to_edges(fresh, c.dets, e2);
    sx_assert(e1 == e2, "a used decoder returns different edges than a fresh one");
#endif
    sx_reach("end");
}
#ifndef SEEDS
#define SEEDS (TIER ? 12 : 3)
#endif
#define CROWD(name, seeds, make) \
    HARNESS(name) { int seed = sx_choose("seed", 0, seeds - 1), dist = sx_choose("weights", 0, 2); run(make); }
CROWD(line100, SEEDS, line(100, seed, dist))
CROWD(line300, (SEEDS / 3), line(300, seed, dist))
CROWD(comps24, SEEDS, comps(24, seed, dist))
CROWD(comps80, (SEEDS / 3), comps(80, seed, dist))
CROWD(hub40, SEEDS, hub(40, seed, dist))
CROWD(hub300, SEEDS, hub(300, seed, dist, 6))
CROWD(hist_comps, SEEDS, comps(3, seed, dist))
CROWD(hist_line, SEEDS, line(12, seed, dist))
