#pragma once
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <set>
#include <vector>
#include "pymatching/sparse_blossom/driver/mwpm_decoding.h"
#include "pymatching/sparse_blossom/driver/user_graph.h"
#define CHECK(c) do { if (!(c)) { printf("FAILED line %d: %s\n", __LINE__, #c); exit(1); } } while (0)
struct E { int u, v, w; };  // v == -1: boundary
static pm::Mwpm build(int n, const std::vector<E>& es, size_t nobs = 0, bool own_obs = true) {
    pm::MatchingGraph g(n, nobs ? nobs : es.size());
    pm::SearchGraph s(n);
    for (size_t i = 0; i < es.size(); i++) {
        std::vector<size_t> o;
        if (own_obs) o.push_back(nobs ? (i * 9 + 3) % nobs : i);
        if (es[i].v < 0) { g.add_boundary_edge(es[i].u, 2 * es[i].w, o); s.add_boundary_edge(es[i].u, 2 * es[i].w, o); }
        else { g.add_edge(es[i].u, es[i].v, 2 * es[i].w, o); s.add_edge(es[i].u, es[i].v, 2 * es[i].w, o); }
    }
    pm::Mwpm m(pm::GraphFlooder(std::move(g)), pm::SearchFlooder(std::move(s)));
    m.flooder.sync_negative_weight_observables_and_detection_events();
    return m;
}
struct Best { bool feasible = false; long w = 0; };
static Best brute(int n, const std::vector<E>& es, unsigned synd) {
    Best b;
    for (unsigned c = 0; c < (1u << es.size()); c++) {
        unsigned s = 0; long w = 0;
        for (size_t i = 0; i < es.size(); i++) if (c >> i & 1) { s ^= 1u << es[i].u; if (es[i].v >= 0) s ^= 1u << es[i].v; w += 2 * es[i].w; }
        if (s == synd && (!b.feasible || w < b.w)) { b.feasible = true; b.w = w; }
    }
    return b;
}
static unsigned mask_synd(const std::vector<E>& es, unsigned long c) { unsigned s = 0; for (size_t i = 0; i < es.size(); i++) if (c >> i & 1) { s ^= 1u << es[i].u; if (es[i].v >= 0) s ^= 1u << es[i].v; } return s; }
static long mask_w(const std::vector<E>& es, unsigned long c) { long s = 0; for (size_t i = 0; i < es.size(); i++) if (c >> i & 1) s += 2 * es[i].w; return s; }
static std::vector<uint64_t> dets(unsigned s) { std::vector<uint64_t> r; for (int i = 0; i < 32; i++) if (s >> i & 1) r.push_back(i); return r; }
static unsigned long rs = 88172645463325252ul;
static unsigned rnd(unsigned n) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return (rs >> 11) % n; }
static std::vector<E> random_graph(int n, int m, int maxw, int nb, int minw = 0) {
    std::set<std::pair<int, int>> seen; std::vector<E> es;
    for (int k = 0; k < 10 * m && (int)es.size() < m; k++) { int u = rnd(n), v = rnd(n); if (u == v) continue; if (u > v) std::swap(u, v); if (!seen.insert({u, v}).second) continue; es.push_back({u, v, (int)rnd(maxw - minw + 1) + minw}); }
    for (int k = 0; k < nb; k++) { int u = rnd(n); if (!seen.insert({u, -1}).second) continue; es.push_back({u, -1, (int)rnd(maxw - minw + 1) + minw}); }
    return es;
}
