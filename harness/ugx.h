// Building user graphs from instances.
#pragma once
#include "pymatching/sparse_blossom/driver/user_graph.h"
#include "scn.h"
/// how the boundary edges of an instance are expressed in a user graph
enum BoundaryStyle { B_EDGE, B_NODE, B_NODES };
/// user graph with the weights of g (given before doubling, as integer-valued doubles). B_EDGE: boundary edges; B_NODE: edges to the extra node n,
/// which is marked as boundary; B_NODES: every boundary edge goes to a boundary node of its own (n, n+1, ...).
static inline void fill_user_graph(pm::UserGraph& ug, const Inst& g, BoundaryStyle style, double p = -1) {
    std::set<size_t> b;
    size_t next = g.n;
    for (size_t i = 0; i < g.e.size(); i++) {
        double w = (double)(g.w[i] / 2);
        if (g.e[i].v >= 0) {
            ug.add_or_merge_edge(g.e[i].u, g.e[i].v, g.obs[i], w, p);
        } else if (style == B_EDGE) {
            ug.add_or_merge_boundary_edge(g.e[i].u, g.obs[i], w, p);
        } else {
            size_t bn = style == B_NODE ? (size_t)g.n : next++;
            b.insert(bn);
            if (i % 2)
                ug.add_or_merge_edge(bn, g.e[i].u, g.obs[i], w, p);
            else
                ug.add_or_merge_edge(g.e[i].u, bn, g.obs[i], w, p);
        }
    }
    if (!b.empty())
        ug.set_boundary(b);
}
