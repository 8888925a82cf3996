// Shortest-path queries (C13): through the search flooder and through the user graph.
#include "mined.h"
#include "ugx.h"
using namespace pm;
#ifndef WLO
#define WLO 0
#endif
#ifndef WHI
#define WHI (1 << 24)
#endif

static int find_edge(const Inst& g, int64_t u, int64_t v) {
    for (size_t k = 0; k < g.e.size(); k++)
        if ((g.e[k].u == u && g.e[k].v == v) || (g.e[k].u == v && g.e[k].v == u))
            return k;
    return -1;
}
static uint64_t pair_synd(int src, int dst) {
    return (uint64_t{1} << src) ^ (dst >= 0 ? uint64_t{1} << dst : 0);
}
/// the edge sets a path from src to dst competes with: those with its boundary; a path between two detectors does not pass through the boundary
static std::vector<uint32_t> rivals(const Inst& g, const Oracle& o, int src, int dst) {
    uint64_t b = 0;
    for (size_t k = 0; k < g.e.size(); k++)
        if (g.e[k].v < 0)
            b |= uint64_t{1} << k;
    std::vector<uint32_t> r;
    for (auto c : o.by_synd[src == dst ? 0 : pair_synd(src, dst)])
        if (dst < 0 || !(c & b))
            r.push_back(c);
    return r;
}
/// the path given by `nodes` (first = src; last = dst unless dst is the boundary, -1) is a shortest path of the graph with |weights|
static void assert_shortest(const Inst& g, const Oracle& o, int src, int dst, const std::vector<int64_t>& nodes) {
    sx_assert(!nodes.empty(), "a path has no node");
    if (nodes.empty())
        return;
    sx_assert(nodes[0] == src, "the path does not start at the source");
    uint64_t mask = 0;
    bool ok = true;
    for (size_t i = 0; i < nodes.size(); i++) {
        int64_t next = i + 1 < nodes.size() ? nodes[i + 1] : -1;
        if (i + 1 == nodes.size() && dst >= 0) {
            sx_assert(nodes[i] == dst, "the path does not end at the destination");
            break;
        }
        int k = find_edge(g, nodes[i], next);
        sx_assert(k >= 0, "consecutive nodes of the path are not joined by an edge");
        if (k < 0)
            return;
        sx_assert(!(mask >> k & 1), "an edge occurs twice on the path");
        mask |= uint64_t{1} << k;
    }
    for (auto c : rivals(g, o, src, dst))
        sx_assert(o.cost[mask] <= o.cost[c], "the path is not a shortest one");
}
static void query_flooder(SearchFlooder& f, const Inst& g, const Oracle& o, int src, int dst) {
    std::vector<int64_t> nodes;
    bool threw = false;
    size_t d = dst < 0 ? SIZE_MAX : dst;
    auto at = [&](SearchDetectorNode* n) -> int64_t { return n ? n - &f.graph.nodes[0] : -1; };
    try {
        int64_t last = -2;
        f.iter_edges_on_shortest_path_from_source(src, d, [&](const SearchGraphEdge& e) {
            int64_t a = at(e.detector_node), b = at(e.detector_node->neighbors[e.neighbor_index]);
            if (last != -2)
                sx_assert(a == last, "the edges of a path are not in order");
            nodes.push_back(a);
            last = b;
        });
        if (dst >= 0)
            nodes.push_back(dst);
    } catch (const std::invalid_argument&) {
        threw = true;
    }
    bool feasible = !rivals(g, o, src, dst).empty();
    if (src == dst) {
        sx_assert(!threw && nodes.size() == 1, "the path from a node to itself is not empty");
    } else {
        sx_assert(threw == !feasible, "a path is refused although there is one, or reported although there is none");
        if (!threw && feasible)
            assert_shortest(g, o, src, dst, nodes);
    }
    // the same query answered from the middle: the same length
    uint64_t mask = 0;
    bool threw2 = false;
    try {
        f.iter_edges_on_shortest_path_from_middle(src, d, [&](const SearchGraphEdge& e) {
            int k = find_edge(g, at(e.detector_node), at(e.detector_node->neighbors[e.neighbor_index]));
            sx_assert(k >= 0, "an edge of a path is not in the graph");
            sx_assert(!(mask >> k & 1), "an edge occurs twice on the path");
            mask |= uint64_t{1} << k;
        });
    } catch (const std::invalid_argument&) {
        threw2 = true;
    }
    sx_assert(threw2 == threw, "the two ways of searching a path disagree on whether there is one");
    if (!threw2) {
        sx_assert(src == dst ? mask == 0 : o.synd[mask] == pair_synd(src, dst), "the edges of a path do not join its ends");
        for (auto c : rivals(g, o, src, dst))
            sx_assert(o.cost[mask] <= o.cost[c], "the path is not a shortest one");
    } else {
        sx_reach("no path");
    }
}
static void query_user(UserGraph& ug, const Inst& g, const Oracle& o, int src, int dst, BoundaryStyle style) {
    // with boundary nodes the boundary may be the source as well
    bool swap = dst < 0 && style != B_EDGE && sx_choose("boundary_is_source", 0, 1);
    size_t b = style == B_EDGE ? SIZE_MAX : g.n;
    size_t s = src, d = dst < 0 ? b : dst;
    std::vector<size_t> out;
    bool threw = false;
    try {
        ug.get_nodes_on_shortest_path_from_source(swap ? d : s, swap ? s : d, out);
    } catch (const std::invalid_argument&) {
        threw = true;
    }
    bool feasible = !rivals(g, o, src, dst).empty();
    sx_assert(threw == !feasible, "a path is refused although there is one, or reported although there is none");
    if (threw || !feasible)
        return;
    std::vector<int64_t> nodes(out.begin(), out.end());
    if (swap)
        std::reverse(nodes.begin(), nodes.end());
    if (src == dst)
        sx_assert(nodes.size() == 1 && nodes[0] == src, "the path from a node to itself is not that node");
    else
        assert_shortest(g, o, src, dst, nodes);
}
static void body(Inst g, bool user) {
    int n = g.n;
    Inst abs = g;
    for (auto& w : abs.w)
        w = sx_ite(w < 0, -w, w);
    Oracle o(abs);
    if (user) {
        BoundaryStyle style = (BoundaryStyle)sx_choose("style", 0, 1);
        UserGraph ug(n);
        fill_user_graph(ug, g, style);
        int src = sx_choose("src", 0, n - 1), dst = sx_choose("dst", -1, n - 1);
        bool has_boundary = false;
        for (auto& e : g.e)
            has_boundary |= e.v < 0;
        if (dst < 0 && style == B_NODE && !has_boundary)
            return;
        query_user(ug, g, o, src, dst, style);
        // out of range nodes are refused and leave the graph usable
        bool threw = false;
        std::vector<size_t> out;
        try {
            ug.get_nodes_on_shortest_path_from_source(sx_choose("bad", 0, 1) ? 1000 : ug.get_num_nodes(), src, out);
        } catch (const std::invalid_argument&) {
            threw = true;
        }
        sx_assert(threw, "a node outside the graph was accepted");
        if (dst >= 0)
            query_user(ug, g, o, dst, src, style);
    } else {
        SearchFlooder f(search_graph(g));
        int src = sx_choose("src", 0, n - 1), dst = sx_choose("dst", -1, n - 1);
        query_flooder(f, g, o, src, dst);
        query_flooder(f, g, o, (src + 1) % n, src);
    }
    sx_reach("end");
}
#define FAM(name, n, ...)                                                           \
    HARNESS(name) { body(sym_inst(n, __VA_ARGS__, WLO, WHI), false); }               \
    HARNESS(name##_ug) { body(sym_inst(n, __VA_ARGS__, WLO, WHI - 1), true); }
FAM(pair, 2, {{0, 1}, {0, -1}, {1, -1}})
FAM(tri, 3, {{0, 1}, {0, 2}, {1, 2}})
FAM(chain3, 3, {{0, -1}, {0, 1}, {1, 2}, {2, -1}})
FAM(two_comp, 4, {{0, 1}, {2, 3}, {3, -1}})
FAM(k3_bdry1, 3, {{0, 1}, {0, 2}, {1, 2}, {0, -1}})
FAM(cycle4, 4, {{0, 1}, {1, 2}, {2, 3}, {3, 0}})
FAM(cycle5b, 5, {{0, 1}, {1, 2}, {2, 3}, {3, 4}, {4, 0}, {2, -1}})
FAM(k4, 4, {{0, 1}, {0, 2}, {0, 3}, {1, 2}, {1, 3}, {2, 3}})
FAM(star4, 4, {{0, 1}, {0, 2}, {0, 3}, {1, -1}, {2, 3}})
/// mined topologies, three weights moving
HARNESS(mined_path) {
    static const int ids[] = {0, 3, 5, 10, 14, 15, 17};
    const Mined& m = *mined(ids[sx_choose("instance", 0, 6)]);
    int j = sx_choose("window", 0, (int)m.w.size() - 3);
    std::vector<std::array<int64_t, 2>> r;
    for (size_t i = 0; i < m.w.size(); i++)
        r.push_back({(int)i >= j && (int)i < j + 3 ? 0 : m.w[i], (int)i >= j && (int)i < j + 3 ? 24 : m.w[i]});
    body(mixed_inst(m.n, m.e, r), false);
}
