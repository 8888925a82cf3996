// Sampling of noise (C23). The random source pm::rand_float is replaced by one whose draws are chosen by the solver
// (odd sixteenths, so that a draw never equals a probability, which is a multiple of an eighth).
#include "pymatching/rand/rand_gen.h"
#include "ugx.h"
using namespace pm;
static std::vector<int64_t> draws;
static size_t calls;
static bool all_zero;
static long vary_at = -1;
static int64_t vary_to;
double pm::rand_float(double from, double to) {
    size_t i = calls++;
    if (all_zero)
        return from;  // the smallest value the source can return
    while (draws.size() <= i)
        draws.push_back(sx_int(nm("draw", draws.size()).c_str(), 0, 7));
    int64_t k = (long)i == vary_at ? vary_to : draws[i];
    double u = (double)(2 * k + 1) / 16.0;
    if (from == 0.0 && to == 1.0)
        return u;
    return from + (to - from) * u;
}
struct Shot {
    uint64_t flips = 0;
    std::vector<uint8_t> err, syn;
};
static const size_t SHARED = 9;  // observable flipped by every second edge
static Shot sample(UserGraph& ug, const Inst& g) {
    Shot s;
    s.err.assign(ug.get_num_observables() + 1, 0);
    s.syn.assign(ug.get_num_nodes() + 1, 0);
    s.err.back() = s.syn.back() = 5;
    calls = 0;
    ug.add_noise(s.err.data(), s.syn.data());
    sx_assert(s.err.back() == 5 && s.syn.back() == 5, "a byte after the arrays is written");
    for (size_t i = 0; i < g.e.size(); i++)
        s.flips |= (uint64_t)(s.err[i] & 1) << i;
    return s;
}
static void consistent(const Shot& s, const Inst& g, const std::set<size_t>& boundary, size_t nodes) {
    std::vector<uint8_t> syn(nodes, 0);
    uint8_t shared = 0;
    size_t next = g.n;
    for (size_t i = 0; i < g.e.size(); i++) {
        sx_assert(s.err[i] <= 1, "an entry of the noise is neither 0 nor 1");
        if (s.flips >> i & 1) {
            syn[g.e[i].u] ^= 1;
            if (g.e[i].v >= 0)
                syn[g.e[i].v] ^= 1;
            if (i % 2 == 0)
                shared ^= 1;
        }
    }
    (void)next;
    for (auto b : boundary)
        syn[b] = 0;
    sx_assert(s.err[SHARED] == shared, "an observable flipped by several errors is not their parity");
    for (size_t i = 0; i < nodes; i++)
        sx_assert(s.syn[i] == syn[i], "the syndrome is not that of the sampled errors");
}
/// style: 0 boundary edges, 1 a boundary node, 2 all edges between detectors
static void noise(int n, std::vector<Ed> es, std::set<size_t> boundary) {
    Inst g;
    g.n = n;
    g.e = es;
    size_t E = es.size();
    std::vector<int64_t> p8;
    UserGraph ug(n, 10);
    for (size_t i = 0; i < E; i++) {
        p8.push_back(sx_int(nm("p", i).c_str(), 0, 8));
        std::vector<size_t> obs = {i};
        if (i % 2 == 0)
            obs.push_back(SHARED);
        if (es[i].v < 0)
            ug.add_or_merge_boundary_edge(es[i].u, obs, 1.0, (double)p8[i] / 8.0);
        else
            ug.add_or_merge_edge(es[i].u, es[i].v, obs, 1.0, (double)p8[i] / 8.0);
    }
    if (!boundary.empty())
        ug.set_boundary(boundary);
    draws.clear();
    vary_at = -1;
    Shot base = sample(ug, g);
    consistent(base, g, boundary, ug.get_num_nodes());
    for (size_t e = 0; e < E; e++) {
        bool f = base.flips >> e & 1;
        if (p8[e] == 0)
            sx_assert(!f, "an error of probability 0 occurred");
        if (p8[e] == 8)
            sx_assert(f, "an error of probability 1 did not occur");
    }
    size_t ncalls = calls;
    std::vector<int> decided(E, 0);
    for (size_t c = 0; c < ncalls; c++) {
        std::vector<int64_t> cnt(E, 0);
        for (vary_to = 0; vary_to < 8; vary_to++) {
            vary_at = c;
            Shot s = sample(ug, g);
            vary_at = -1;
            consistent(s, g, boundary, ug.get_num_nodes());
            for (size_t e = 0; e < E; e++)
                cnt[e] += s.flips >> e & 1;
        }
        int depend = 0;
        for (size_t e = 0; e < E; e++)
            if (cnt[e] != 0 && cnt[e] != 8) {
                depend++;
                decided[e]++;
                sx_assert(cnt[e] == p8[e], "an error does not occur with its probability");
            }
        sx_assert(depend <= 1, "two errors are decided by the same draw");
    }
    for (size_t e = 0; e < E; e++)
        if (p8[e] > 0 && p8[e] < 8)
            sx_assert(decided[e] == 1, "an error that may or may not occur is not decided by a draw of its own");
    sx_reach("end");
}
HARNESS(noise_one) { noise(1, {{0, -1}}, {}); }
HARNESS(noise_two) { noise(2, {{0, 1}, {1, -1}}, {}); }
HARNESS(noise_three) { noise(3, {{0, 1}, {2, 1}, {2, -1}}, {}); }
HARNESS(noise_bnode) { noise(3, {{0, 1}, {0, 2}, {1, 2}}, {2}); }
HARNESS(noise_bnodes) { noise(4, {{0, 1}, {0, 3}, {1, 2}}, {1, 3}); }
/// without a probability on every edge nothing is sampled
HARNESS(noise_missing) {
    int E = 3;
    int miss = sx_choose("missing", 0, E - 1);
    static const double BAD[] = {-1, -0.5, 1.5, 2};
    double bad = BAD[sx_choose("bad", 0, 3)];
    UserGraph ug(2, 3);
    for (int i = 0; i < E; i++) {
        double p = i == miss ? bad : (double)sx_int(nm("p", i).c_str(), 0, 8) / 8.0;
        if (i < 2)
            ug.add_or_merge_boundary_edge(i, {(size_t)i}, 1.0, p);
        else
            ug.add_or_merge_edge(0, 1, {2}, 1.0, p);
    }
    sx_assert(!ug.all_edges_have_error_probabilities(), "an edge without a probability is overlooked");
    std::vector<uint8_t> err(3, 0), syn(2, 0);
    calls = 0;
    draws.clear();
    ug.add_noise(err.data(), syn.data());
    for (auto x : err)
        sx_assert(x == 0, "noise is sampled although an edge has no probability");
    for (auto x : syn)
        sx_assert(x == 0, "noise is sampled although an edge has no probability");
    sx_reach("end");
}
/// a draw of exactly 0 neither makes an impossible error happen nor a certain one fail
HARNESS(noise_zero) {
    UserGraph ug(2, 3);
    uint8_t p[3];
    for (int i = 0; i < 3; i++) {
        p[i] = sx_choose(nm("certain", i).c_str(), 0, 1);
        if (i < 2)
            ug.add_or_merge_boundary_edge(i, {(size_t)i}, 1.0, (double)p[i]);
        else
            ug.add_or_merge_edge(0, 1, {2}, 1.0, (double)p[i]);
    }
    std::vector<uint8_t> err(3, 0), syn(2, 0);
    all_zero = true;
    ug.add_noise(err.data(), syn.data());
    all_zero = false;
    for (int i = 0; i < 3; i++)
        sx_assert(err[i] == p[i], p[i] ? "an error of probability 1 did not occur" : "an error of probability 0 occurred");
    sx_assert(syn[0] == (p[0] ^ p[2]) && syn[1] == (p[1] ^ p[2]), "the syndrome is not that of the sampled errors");
    sx_reach("end");
}
