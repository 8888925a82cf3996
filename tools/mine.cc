// Development aid (not part of any check): looks for small instances that reach rarely executed code of the matcher, to be used as
// base weights of the symbolic scenarios. Random instances -> greedy cover of (block, bucketed count) features.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <random>
#include <set>
#include "scn.h"
using namespace pm;
static uint32_t ng;
static std::vector<uint16_t> hits;
static bool on = false;
extern "C" void __sanitizer_cov_trace_pc_guard_init(uint32_t* a, uint32_t* b) {
    if (a == b || *a) return;
    for (uint32_t* x = a; x < b; x++) *x = ++ng;
    hits.resize(ng + 1);
}
extern "C" void __sanitizer_cov_trace_pc_guard(uint32_t* g) { if (on && *g < hits.size()) hits[*g]++; }
extern "C" { int64_t sx_int(const char*, int64_t, int64_t) { return 0; } int64_t sx_choose(const char*, int64_t, int64_t) { return 0; } void sx_assert(int c, const char* m) { if (!c) { printf("ASSERT %s\n", m); exit(1); } } void sx_reach(const char*) {} void sx_out(const char*, int64_t) {} }
struct Cand { int n; std::vector<Ed> e; std::vector<int> w; uint64_t synd; std::set<uint32_t> f; };
int main(int argc, char** argv) {
    int iters = atoi(argv[1]), N = atoi(argv[2]), E = atoi(argv[3]), W = atoi(argv[4]);
    bool search = atoi(argv[5]);
    int full = atoi(argv[6]);
    std::mt19937 rng(atoi(argv[7]));
    std::map<uint32_t, Cand> best;  // smallest candidate per feature
    for (int it = 0; it < iters; it++) {
        Cand c;
        c.n = 3 + rng() % (N - 2);
        std::set<std::pair<int, int>> have;
        int m = c.n + rng() % std::max(1, E - c.n + 1);
        for (int i = 0; i < m; i++) {
            int u = rng() % c.n, v = (int)(rng() % (c.n + 1)) - 1;
            if (u == v) continue;
            if (v >= 0 && u > v) std::swap(u, v);
            if (!have.insert({u, v}).second) continue;
            c.e.push_back({u, v});
            c.w.push_back(rng() % 4 == 0 ? rng() % 3 : rng() % (W + 1));
        }
        c.synd = full ? (1u << c.n) - 1 : rng() % (1u << c.n);
        if (rng() % 3 == 0) c.synd = (1u << c.n) - 1;
        if (c.e.empty() || c.synd == 0) continue;
        Inst g; g.n = c.n; g.e = c.e; g.num_obs = c.e.size();
        for (size_t i = 0; i < c.e.size(); i++) { g.w.push_back(2 * c.w[i]); g.obs.push_back({i}); }
        std::fill(hits.begin(), hits.end(), 0);
        Mwpm m2 = make_mwpm(g, search);
        on = true;
        try {
            if (search) { std::vector<int64_t> ed; decode_detection_events_to_edges(m2, dets_of(c.synd, c.n), ed); }
            else decode_detection_events_for_up_to_64_observables(m2, dets_of(c.synd, c.n), false);
        } catch (std::invalid_argument&) { on = false; continue; }
        on = false;
        for (uint32_t i = 1; i < hits.size(); i++) if (hits[i]) {
            int b = hits[i] >= 4 ? 3 : hits[i] >= 2 ? 2 : 1;
            for (int k = 1; k <= b; k++) c.f.insert(i * 4 + k);
        }
        for (auto f : c.f) {
            auto x = best.find(f);
            auto key = [](const Cand& q) { int s = 0; for (auto w : q.w) s += w; return std::make_tuple(q.e.size(), q.n, s); };
            if (x == best.end() || key(c) < key(x->second)) best[f] = c;
        }
    }
    // greedy cover
    std::set<uint32_t> left;
    for (auto& b : best) left.insert(b.first);
    printf("features %zu of %u guards\n", left.size(), ng);
    while (!left.empty()) {
        const Cand* bc = nullptr; size_t bn = 0;
        for (auto& b : best) { size_t k = 0; for (auto f : b.second.f) k += left.count(f); if (k > bn) { bn = k; bc = &b.second; } }
        for (auto f : bc->f) left.erase(f);
        printf("+%zu n=%d E=%zu synd=%llx {", bn, bc->n, bc->e.size(), (unsigned long long)bc->synd);
        for (auto& e : bc->e) printf("{%d,%d},", e.u, e.v);
        printf("} w={");
        for (auto w : bc->w) printf("%d,", w);
        printf("}\n");
    }
}
