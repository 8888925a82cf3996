// Observable bits (C22), and very long chains on which the event clock passes its half cycle (C01, C03, C13).
#include <algorithm>
#include <map>
#include "ugx.h"
using namespace pm;
// ---------------------------------------------------------------------------------------------- C22
/// mask -> bits -> mask for every mask and every number of observables
HARNESS(obs_bits) {
    int n = sx_choose("n", 0, 66);
    uint64_t mask = 0;
    for (int i = 0; i < 63; i++)
        mask |= (uint64_t)sx_int(nm("b", i).c_str(), 0, 1) << i;
    if (sx_choose("b63", 0, 1))
        mask |= uint64_t{1} << 63;
    uint64_t keep = n >= 64 ? ~uint64_t{0} : (uint64_t{1} << n) - 1;
    std::vector<uint8_t> bits(n + 1, 0);
    bits[n] = 7;
    bool ok = true;
    try {
        fill_bit_vector_from_obs_mask(mask, bits.data(), n);
    } catch (const std::invalid_argument&) {
        ok = false;
    }
    sx_assert(ok == (n <= 64), "more than 64 observables are accepted, or 64 or fewer refused");
    if (!ok) {
        sx_reach("end");
        return;
    }
    sx_assert(bits[n] == 7, "a byte after the last observable is written");
    for (int i = 0; i < n; i++)
        sx_assert(bits[i] == (mask >> i & 1), "bit i of the mask is not entry i of the array");
    bits.resize(n);
    sx_assert(bit_vector_to_obs_mask(bits) == (mask & keep), "the array does not convert back to the mask");
    // the array is flipped, not overwritten
    std::vector<uint8_t> again = bits;
    fill_bit_vector_from_obs_mask(mask, again.data(), n);
    for (int i = 0; i < n; i++)
        sx_assert(again[i] == 0, "predictions are not combined by exclusive or");
    sx_reach("end");
}
/// sums of results: observables by exclusive or, weights by addition
HARNESS(result_sum) {
    uint64_t a = (uint64_t)sx_int("a", 0, INT64_MAX), b = (uint64_t)sx_int("b", 0, INT64_MAX);
    int64_t wa = sx_int("wa", -(int64_t{1} << 40), int64_t{1} << 40), wb = sx_int("wb", -(int64_t{1} << 40), int64_t{1} << 40);
    MatchingResult r(a, wa), s(b, wb);
    auto t = r + s;
    r += s;
    sx_assert(t.obs_mask == (a ^ b) && r.obs_mask == (a ^ b), "observables of a sum are not the exclusive or");
    sx_assert(t.weight == wa + wb && r.weight == wa + wb, "weight of a sum is not the sum");
    int n = sx_choose("n", 0, 5);
    std::vector<uint8_t> x(n), y(n);
    for (int i = 0; i < n; i++) {
        x[i] = sx_choose(nm("x", i).c_str(), 0, 1);
        y[i] = sx_choose(nm("y", i).c_str(), 0, 1);
    }
    ExtendedMatchingResult p(x, wa), q(y, wb);
    auto u = p + q;
    for (int i = 0; i < n; i++)
        sx_assert(u.obs_crossed[i] == (x[i] ^ y[i]), "observables of a sum are not the exclusive or");
    sx_assert(u.weight == wa + wb, "weight of a sum is not the sum");
    sx_reach("end");
}
/// predictions for graphs whose number of observables is around the width of the mask, edges flipping several observables each
static void widths(Inst g, int64_t lo) {
    static const int NS[] = {1, 2, 8, 31, 32, 33, 63, 64, 65, 66, 127, 128, 129};
    int N = NS[sx_choose("width", 0, sizeof NS / sizeof *NS - 1)];
    size_t E = g.e.size();
    g.num_obs = N;
    for (size_t i = 0; i < E; i++) {
        std::set<size_t> o = {(size_t)(N - 1 - (int)i % N)};
        if (i % 2 == 0)
            o.insert((N / 2 + i) % N);
        if (i == 0)
            o.insert(0);
        if (i == 1 && N > 40)
            o = {(size_t)N - 1, 31, 32, 33};
        g.obs[i].assign(o.begin(), o.end());
    }
    UserGraph ug(g.n);
    fill_user_graph(ug, g, B_EDGE);
    sx_assert((int)ug.get_num_observables() >= 1 && (int)ug.get_num_observables() <= N, "the number of observables is wrong");
    ug.set_min_num_observables(N);
    sx_assert((int)ug.get_num_observables() == N, "the number of observables is wrong");
    // observables beyond those of any edge, asked for after the decoder was built
    int more = sx_choose("more", 0, 2) * 33;
    if (more) {
        ug.get_mwpm();
        ug.set_min_num_observables(N + more);
        ug.set_min_num_observables(N);
        sx_assert((int)ug.get_num_observables() == N + more, "the number of observables is wrong");
    }
    uint64_t s = sx_choose("syndrome", 0, (1 << g.n) - 1);
    auto dets = dets_of(s, g.n);
    Oracle o(g);
    if (!o.feasible(s)) {
        sx_reach("end");
        return;
    }
    int with_search = sx_choose("with_search", 0, 1);
    Mwpm& m = with_search ? ug.get_mwpm_with_search_graph() : ug.get_mwpm();
    std::vector<uint8_t> bits(N + more + 1, 0);
    bits[N + more] = 9;
    total_weight_int w = 0;
    decode_detection_events(m, dets, bits.data(), w, false);
    sx_assert(bits[N + more] == 9, "a byte after the last observable is written");
    for (int i = N; i < N + more; i++)
        sx_assert(!bits[i], "an observable of no edge is flipped");
    bool some = false;
    for (auto c : o.by_synd[s]) {
        std::vector<uint8_t> want(N, 0);
        for (size_t i = 0; i < E; i++)
            if (c >> i & 1)
                for (auto k : g.obs[i])
                    want[k] ^= 1;
        bool same = true;
        for (int i = 0; i < N; i++)
            same &= want[i] == bits[i];
        sx_assert(w <= o.cost[c], "the weight is not the minimum");
        if (same) {
            if (o.cost[c] == w)
                some = true;
        }
    }
    sx_assert(some, "the predicted observables are not those of a minimum-weight correction");
    if (N + more <= 64) {
        auto r = decode_detection_events_for_up_to_64_observables(m, dets, false);
        uint64_t mask = 0;
        for (int i = 0; i < N; i++)
            mask |= (uint64_t)bits[i] << i;
        sx_assert(r.obs_mask == mask && r.weight == w, "mask and array predictions differ");
    }
    sx_reach("end");
}
HARNESS(width_pair) { widths(sym_inst(2, {{0, 1}, {0, -1}, {1, -1}}, 0, (1 << 24) - 1), 0); }
HARNESS(width_chain) { widths(sym_inst(3, {{0, 1}, {1, 2}, {2, -1}}, -((1 << 24) - 1), (1 << 24) - 1), 0); }
HARNESS(width_tri) { widths(sym_inst(3, {{0, 1}, {1, 2}, {0, 2}, {0, -1}}, -((1 << 24) - 1), (1 << 24) - 1), 0); }
// ---------------------------------------------------------------------------------------------- long chains
/// n detectors in a row, inner weights all `inner`, boundary edges at both ends with symbolic weights, events at a and b (b < 0: only a)
static void longchain(int n, int64_t inner, int64_t blo, int64_t bhi, int a, int b, int what) {
    Inst g;
    g.n = n;
    int64_t L = sx_int("left", blo, bhi), R = sx_int("right", blo, bhi);
    g.e.push_back({0, -1});
    g.w.push_back(2 * L);
    for (int i = 0; i + 1 < n; i++) {
        g.e.push_back({i, i + 1});
        g.w.push_back(2 * inner);
    }
    g.e.push_back({n - 1, -1});
    g.w.push_back(2 * R);
    g.num_obs = 3;
    g.obs.assign(g.e.size(), {});
    g.obs[0] = {0};
    g.obs.back() = {1};
    if (b >= 0)
        g.obs[a + 1] = {2};
    Mwpm m = make_mwpm(g, what != 0);
    int64_t toL = 2 * (L + inner * a), toR = 2 * (R + inner * (n - 1 - (b < 0 ? a : b))), mid = b < 0 ? 0 : 2 * inner * (b - a);
    int64_t want = b < 0 ? sx_ite(toL < toR, toL, toR) : sx_ite(mid < toL + toR, mid, toL + toR);
    std::vector<uint64_t> dets = {(uint64_t)a};
    if (b >= 0)
        dets.push_back(b);
    if (what == 0) {
        for (int rep = 0; rep < 2; rep++) {
            auto r = decode_detection_events_for_up_to_64_observables(m, dets, false);
            sx_assert(r.weight == want, "reported weight is not the minimum");
        }
    } else if (what == 1) {
        std::vector<int64_t> edges;
        decode_detection_events_to_edges(m, dets, edges);
        std::map<int64_t, int> par;
        int64_t total = 0;
        for (size_t i = 0; i + 1 < edges.size(); i += 2) {
            int64_t u = std::min(edges[i], edges[i + 1]), v = std::max(edges[i], edges[i + 1]);
            sx_assert(u == -1 ? (v == 0 || v == n - 1) : v == u + 1, "an output edge is not an edge of the graph");
            total += u == -1 ? (v == 0 ? 2 * L : 2 * R) : 2 * inner;
            par[u]++;
            par[v]++;
        }
        for (int i = 0; i < n; i++)
            sx_assert(par[i] % 2 == (i == a || i == b), "the edges do not produce the syndrome");
        sx_assert(total == want, "the edges are not of minimum weight");
    } else {
        // shortest paths: between the two nodes, and from a to the boundary
        for (int k = b < 0; k < 2; k++) {
            int64_t total = 0;
            size_t cur = a;
            m.search_flooder.iter_edges_on_shortest_path_from_source(a, k ? SIZE_MAX : b, [&](const SearchGraphEdge& e) {
                size_t u = e.detector_node - &m.search_flooder.graph.nodes[0];
                auto* nb = e.detector_node->neighbors[e.neighbor_index];
                sx_assert(u == cur, "consecutive edges of the path do not join");
                total += 2 * inner;
                if (nb) {
                    cur = nb - &m.search_flooder.graph.nodes[0];
                } else {
                    total += (u == 0 ? 2 * L : 2 * R) - 2 * inner;
                    cur = SIZE_MAX;
                }
            });
            sx_assert(cur == (k ? SIZE_MAX : (size_t)b), "the path does not end at the destination");
            int64_t rb = 2 * (R + inner * (n - 1 - a));
            int64_t best = k ? sx_ite(toL < rb, toL, rb) : mid;
            // a path between two detectors may not pass through the boundary
            sx_assert(total == best, "the path is not a shortest one");
        }
    }
    sx_reach("end");
}
#ifndef WHAT
#define WHAT 0
#endif
#define MAXW ((1 << 24) - 1)
// one event, 200 edges away from either boundary: distances up to 2 * 2^31
HARNESS(long_single) { longchain(200, MAXW, MAXW - 40, MAXW, 99, -1, WHAT); }
HARNESS(long_single_wide) { longchain(160, MAXW, 0, MAXW, 80, -1, WHAT); }
// two events 150 edges apart, boundaries near and far
HARNESS(long_pair) { longchain(152, MAXW, 0, MAXW, 0, 151, WHAT); }
HARNESS(long_mid) { longchain(240, MAXW, 0, MAXW, 60, 180, WHAT); }
HARNESS(long_near) { longchain(300, MAXW, 0, MAXW, 10, 290, WHAT); }
