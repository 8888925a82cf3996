// Two-pass ("correlated") decoding (C18) and loading of detector error models (C19 plain, C21 with correlations).
#include <cmath>
#include <map>
#include "ugx.h"
using namespace pm;
#ifndef WLO
#define WLO 0
#endif
#ifndef WHI
#define WHI ((1 << 24) - 1)
#endif
static int find_edge(const Inst& g, int64_t u, int64_t v) {
    for (size_t k = 0; k < g.e.size(); k++)
        if ((g.e[k].u == u && g.e[k].v == v) || (g.e[k].u == v && g.e[k].v == u))
            return k;
    return -1;
}
static uint64_t mask_of(const Inst& g, const std::vector<int64_t>& edges) {
    uint64_t m = 0;
    for (size_t i = 0; i + 1 < edges.size(); i += 2) {
        int k = find_edge(g, edges[i], edges[i + 1]);
        sx_assert(k >= 0, "an output edge is not an edge of the graph");
        if (k >= 0)
            m ^= uint64_t{1} << k;
    }
    return m;
}
struct Rule {
    int from, to;   // edge indices
    int64_t w;      // implied weight of `to` when `from` is used, in the user's units
};
// ---------------------------------------------------------------------------------------------- C18
/// which of the instance's boundary edges edge k is
static size_t boundary_index(const Inst& g, int k) {
    size_t c = 0;
    for (int i = 0; i < k; i++)
        c += g.e[i].v < 0;
    return c;
}
/// kind: 0 bit mask, 1 bit array, 2 edges, 3 bit array with more than 64 observables
static void two_pass(Inst g, int nrules, int max_synd = 0, BoundaryStyle style = B_EDGE) {
    size_t E = g.e.size();
    std::vector<Rule> rules;
    for (int i = 0; i < nrules; i++) {
        int from = sx_choose(nm("from", i).c_str(), 0, E - 1), to = sx_choose(nm("to", i).c_str(), 0, E - 1);
        sx_assume(from != to);
        if (from == to)
            return;
        rules.push_back({from, to, sx_int(nm("implied", i).c_str(), 0, WHI)});
    }
    int kind = sx_choose("kind", 0, 3);
    Inst gg = g;
    if (kind == 3) {
        gg.num_obs = 70;
        for (size_t i = 0; i < E; i++)
            gg.obs[i] = {(69 + 9 * i) % 70};
    }
    UserGraph ug(g.n, gg.num_obs);
    fill_user_graph(ug, gg, style);
    {
        size_t i = 0;
        for (auto& e : ug.edges) {
            for (auto& r : rules)
                if (r.from == (int)i) {
                    auto& t = g.e[r.to];
                    size_t a = t.u, b = t.v < 0 ? (style == B_EDGE ? SIZE_MAX : (size_t)g.n + (style == B_NODES ? boundary_index(g, r.to) : 0)) : t.v;
                    e.implied_weights_for_other_edges.push_back({std::min(a, b), std::max(a, b), (double)r.w});
                }
            i++;
        }
    }
    Mwpm& m = ug.get_mwpm_with_search_graph();
    uint64_t s = sx_choose("syndrome", 0, max_synd ? max_synd : (1 << g.n) - 1);
    auto dets = dets_of(s, g.n);
    Oracle o(g);
    // first pass
    std::vector<int64_t> e1;
    bool ok = true;
    try {
        decode_detection_events_to_edges(m, dets, e1);
    } catch (const std::invalid_argument&) {
        ok = false;
    }
    sx_assert(ok == o.feasible(s), "the first pass accepts or refuses a shot wrongly");
    uint64_t first = mask_of(g, e1);
    // weights of the second pass
    Inst h = g;
    for (auto& r : rules)
        if (first >> r.from & 1)
            h.w[r.to] = sx_ite(2 * r.w < h.w[r.to], 2 * r.w, h.w[r.to]);
    Oracle oh(h);
    MatchingResult res;
    uint64_t mask = 0;
    bool have_weight = true;
    bool ok2 = true;
    try {
        if (kind == 0) {
            res = decode_detection_events_for_up_to_64_observables(m, dets, true);
            mask = res.obs_mask;
        } else if (kind == 2) {
            std::vector<int64_t> e2;
            decode_detection_events_to_edges_with_edge_correlations(m, dets, e2);
            mask = mask_of(g, e2);
            have_weight = false;
        } else {
            std::vector<uint8_t> bits(gg.num_obs, 0);
            res.weight = 0;
            decode_detection_events(m, dets, bits.data(), res.weight, true);
            for (size_t i = 0; i < E; i++)
                mask |= (uint64_t)bits[gg.obs[i][0]] << i;
        }
    } catch (const std::invalid_argument&) {
        ok2 = false;
    }
    sx_assert(ok2 == o.feasible(s), "two-pass decoding accepts or refuses a shot wrongly");
    if (ok && ok2 && o.feasible(s)) {
        bool cons = oh.consistent(s, mask);
        sx_assert(cons, "two-pass decoding predicts what no correction gives");
        if (cons) {
            for (auto c : oh.by_synd[s])
                sx_assert(oh.cost[mask] <= oh.cost[c], "the second pass is not optimal for the weights implied by the first");
            if (have_weight)
                sx_assert(res.weight == oh.cost[mask], "two-pass decoding reports another weight than that of its correction under the implied weights");
        }
        if (first)
            sx_reach("first pass used an edge");
    }
    // the weights are restored: every shot is decoded as before
    uint64_t s2 = sx_choose("later", 0, 1) ? s : (1 << g.n) - 1;
    auto d2 = dets_of(s2, g.n);
    std::vector<uint8_t> bits2(gg.num_obs, 0);
    total_weight_int w2 = 0;
    std::vector<int64_t> e3;
    bool ok3 = true;
    try {
        decode_detection_events(m, d2, bits2.data(), w2, false);
        decode_detection_events_to_edges(m, d2, e3);
    } catch (const std::invalid_argument&) {
        ok3 = false;
    }
    sx_assert(ok3 == o.feasible(s2), "after two-pass decoding a shot is accepted or refused wrongly");
    if (ok3 && o.feasible(s2)) {
        uint64_t m2 = 0, m3 = mask_of(g, e3);
        for (size_t i = 0; i < E; i++)
            m2 |= (uint64_t)bits2[gg.obs[i][0]] << i;
        sx_assert(o.consistent(s2, m2) && o.consistent(s2, m3), "after two-pass decoding a shot is decoded to no correction");
        if (o.consistent(s2, m2) && o.consistent(s2, m3)) {
            sx_assert(w2 == o.cost[m2], "after two-pass decoding a shot is weighed with other weights");
            for (auto c : o.by_synd[s2]) {
                sx_assert(o.cost[m2] <= o.cost[c], "after two-pass decoding a shot is decoded with other weights");
                sx_assert(o.cost[m3] <= o.cost[c], "after two-pass decoding a shot is decoded to edges with other weights");
            }
        }
    }
    sx_reach("end");
}
HARNESS(tp_pair1) { two_pass(sym_inst(2, {{0, 1}, {0, -1}, {1, -1}}, WLO, WHI), 1); }
HARNESS(tp_pair2) { two_pass(sym_inst(2, {{0, 1}, {0, -1}, {1, -1}}, WLO, WHI), 2); }
HARNESS(tp_tri1) { two_pass(sym_inst(3, {{0, 1}, {1, 2}, {2, 0}, {1, -1}}, WLO, WHI), 1); }
HARNESS(tp_chain1) { two_pass(sym_inst(3, {{0, -1}, {0, 1}, {1, 2}, {2, -1}}, WLO, WHI), 1); }
HARNESS(tp_two1) { two_pass(sym_inst(4, {{0, 1}, {2, 3}, {3, -1}}, WLO, WHI), 1); }
HARNESS(tp_cycle1) { two_pass(sym_inst(4, {{0, 1}, {1, 2}, {2, 3}, {3, 0}}, WLO, WHI), 1); }
HARNESS(tp_chain2) { two_pass(sym_inst(3, {{0, -1}, {0, 1}, {1, 2}, {2, -1}}, WLO, WHI), 2); }
/// boundary nodes instead of boundary edges
HARNESS(tp_node1) { two_pass(sym_inst(2, {{0, 1}, {0, -1}, {1, -1}}, WLO, WHI), 1, 0, sx_choose("style", 0, 1) ? B_NODES : B_NODE); }
/// rules on the same edge from both used edges, and an edge used and reweighted at once; concrete weights, symbolic implied weights
HARNESS(tp_rules3) {
    static const int64_t W[3][4] = {{10, 7, 20, 9}, {4, 4, 4, 4}, {1, 30, 3, 30}};
    int k = sx_choose("weights", 0, 2);
    std::vector<std::array<int64_t, 2>> r;
    for (int i = 0; i < 4; i++)
        r.push_back({W[k][i], W[k][i]});
    two_pass(mixed_inst(3, {{0, -1}, {0, 1}, {1, 2}, {2, -1}}, r), 3);
}

/// correlations with edges that play no part in decoding (self-loops, edges between boundary nodes) change nothing
HARNESS(tp_ignored) {
    Inst g = sym_inst(2, {{0, 1}, {0, -1}, {1, -1}}, WLO, WHI);
    UserGraph ug(4, 3);
    fill_user_graph(ug, g, B_NODES);
    ug.add_or_merge_edge(2, 3, {}, 3, -1);
    ug.add_or_merge_edge(1, 1, {}, 4, -1);
    int from = sx_choose("from", 0, 4), to = sx_choose("to", 0, 1);
    std::next(ug.edges.begin(), from)->implied_weights_for_other_edges.push_back({to ? size_t{2} : size_t{1}, to ? size_t{3} : size_t{1}, (double)sx_int("implied", 0, WHI)});
    Mwpm& m = ug.get_mwpm_with_search_graph();
    Oracle o(g);
    int s = sx_choose("syndrome", 0, 3);
    uint8_t bits[3] = {0, 0, 0};
    total_weight_int w = 0;
    decode_detection_events(m, dets_of(s, 2), bits, w, true);
    uint64_t mask = bits[0] | bits[1] << 1 | bits[2] << 2;
    sx_assert(o.consistent(s, mask), "two-pass decoding predicts what no correction gives");
    if (o.consistent(s, mask)) {
        for (auto c : o.by_synd[s])
            sx_assert(o.cost[mask] <= o.cost[c], "the second pass is not optimal");
        sx_assert(w == o.cost[mask], "two-pass decoding reports another weight than that of its correction");
    }
    sx_reach("end");
}
/// non-integral weights: two boundary edges and a third, of detectors 0, 1, 2; using the first implies another weight for the second, using the third a large one for the first
static void tp_units(double w0, double w1, double w2, double implied, double large, double unit) {
    UserGraph ug(3, 3);
    ug.add_or_merge_boundary_edge(0, {0}, w0, -1);
    ug.add_or_merge_boundary_edge(1, {1}, w1, -1);
    ug.add_or_merge_boundary_edge(2, {2}, w2, -1);
    auto it = ug.edges.begin();
    it->implied_weights_for_other_edges.push_back({1, SIZE_MAX, implied});
    std::next(it, 2)->implied_weights_for_other_edges.push_back({0, SIZE_MAX, large});
    Mwpm& m = ug.get_mwpm_with_search_graph();
    double c = m.flooder.graph.normalising_constant;
    int s = sx_choose("syndrome", 1, 7);
    auto dets = dets_of(s, 3);
    uint8_t bits[3] = {0, 0, 0};
    total_weight_int w = 0;
    decode_detection_events(m, dets, bits, w, true);
    for (int i = 0; i < 3; i++)
        sx_assert(bits[i] == (s >> i & 1), "wrong observables");
    double want = (s & 1 ? (s & 4 ? std::min(w0, large) : w0) : 0) + (s & 2 ? (s & 1 ? std::min(w1, implied) : w1) : 0) + (s & 4 ? w2 : 0);
    sx_assert(std::abs((double)w / c - want) <= 1.501 * unit, "the weight after reweighting is off by more than the rounding");
    sx_reach("end");
}
HARNESS(tp_grid) {
    static const double W[] = {0.5, 3.7, 0, 1e-3, 2};
    static const double I[] = {0.3, 0, 2.75, 1.0 / 3, 7};
    static const double L[] = {0.25, 9.5, 1000000, 16777215};
    double w0 = W[sx_choose("w0", 0, 4)], w1 = W[sx_choose("w1", 0, 4)], implied = I[sx_choose("implied", 0, 4)], large = L[sx_choose("large", 0, 3)], w2 = sx_choose("w2", 0, 1) ? 2.5 : 3;
    double mx = std::max(std::max(std::max(w0, w1), std::max(w2, implied)), large);
    bool whole = w0 == std::round(w0) && w1 == std::round(w1) && w2 == std::round(w2) && implied == std::round(implied) && large == std::round(large);
    tp_units(w0, w1, w2, implied, large, whole ? 0 : mx / 16777215.0);
}

// ---------------------------------------------------------------------------------------------- detector error models
struct Comp {
    std::vector<uint64_t> d, o;
};
struct Err {
    double p;
    std::vector<Comp> c;
};
static stim::DetectorErrorModel make_dem(const std::vector<Err>& errs, int nd, int no) {
    stim::DetectorErrorModel dem;
    dem.num_detectors = nd;
    dem.num_observables = no;
    for (auto& e : errs) {
        std::vector<stim::DemTarget> t;
        for (size_t i = 0; i < e.c.size(); i++) {
            if (i)
                t.push_back(stim::DemTarget::separator());
            for (auto d : e.c[i].d)
                t.push_back(stim::DemTarget::relative_detector_id(d));
            for (auto o : e.c[i].o)
                t.push_back(stim::DemTarget::observable_id(o));
        }
        dem.append_error(e.p, t);
    }
    return dem;
}
typedef std::pair<size_t, size_t> Key;
struct Rec {
    double p;
    std::vector<size_t> obs;
};
static double comb(double a, double b) {
    return a * (1 - b) + b * (1 - a);
}
static double llr(double p) {
    return std::log((1 - p) / p);
}
static Key key_of(const std::vector<uint64_t>& d) {
    if (d.size() == 1)
        return {d[0], SIZE_MAX};
    return {std::min(d[0], d[1]), std::max(d[0], d[1])};
}
static bool close(double a, double b) {
    return std::abs(a - b) <= 1e-6 * (1 + std::abs(b));
}
/// the edges a model should give: one per set of one or two detectors, probabilities combined as independent errors
static std::map<Key, Rec> expected(const std::vector<Err>& errs) {
    std::map<Key, Rec> m;
    for (auto& e : errs)
        if (e.p > 0)
            for (auto& c : e.c)
                if (c.d.size() == 1 || c.d.size() == 2) {
                    Key k = key_of(c.d);
                    auto it = m.find(k);
                    if (it == m.end())
                        m[k] = {e.p, std::vector<size_t>(c.o.begin(), c.o.end())};
                    else
                        it->second.p = comb(it->second.p, e.p);
                }
    return m;
}
static void check_edges(const UserGraph& ug, const std::map<Key, Rec>& want) {
    sx_assert(ug.edges.size() == want.size(), "the graph of a detector error model has missing or extra edges");
    for (auto& [k, r] : want) {
        const UserEdge* f = nullptr;
        for (auto& e : ug.edges)
            if (Key(std::min(e.node1, e.node2), std::max(e.node1, e.node2)) == k)
                f = &e;
        sx_assert(f != nullptr, "an error mechanism of the model has no edge");
        if (!f)
            continue;
        sx_assert(close(f->error_probability, r.p), "an edge does not have the combined probability of its error mechanisms");
        sx_assert(close(f->weight, llr(r.p)), "an edge does not have the log-likelihood weight of its error mechanisms");
        sx_assert(f->observable_indices == r.obs, "an edge does not flip the observables of its error mechanism");
    }
}
static const std::vector<uint64_t> SHAPES[] = {{0, 1}, {1}, {1, 0}, {}, {1, 2}, {0, 1, 2}, {0}};
static const std::vector<uint64_t> OBS[] = {{}, {2}, {0, 1}};
static Comp comp(const char* name, int shapes, int obs) {
    return {SHAPES[sx_choose(nm(name, 0).c_str(), 0, shapes - 1)], OBS[sx_choose(nm(name, 1).c_str(), 0, obs - 1)]};
}
HARNESS(dem_plain) {
    static const double PR[] = {0.1, 0, 0.8, 0.5};
    std::vector<Err> errs(2);
    errs[0].p = PR[sx_choose("p0", 0, 2)];
    errs[0].c.push_back(comp("a", 7, 3));
    if (sx_choose("decomposed", 0, 1))
        errs[0].c.push_back(comp("b", 7, 3));
    errs[1].p = PR[sx_choose("p1", 0, 1)] + 0.15;
    errs[1].c.push_back(comp("c", 3, 2));
    UserGraph ug = detector_error_model_to_user_graph(make_dem(errs, 4, 3), false, NUM_DISTINCT_WEIGHTS);
    sx_assert(ug.get_num_nodes() == 4 && ug.get_num_observables() == 3 && ug.get_num_detectors() == 4, "the graph of a detector error model has another size");
    check_edges(ug, expected(errs));
    // without correlations loaded, two-pass decoding is refused and one-pass decoding still works afterwards
    if (sx_choose("decode", 0, 1)) {
        Mwpm& m = ug.get_mwpm_with_search_graph();
        bool threw = false;
        auto want = expected(errs);
        bool has1 = want.count({1, SIZE_MAX});
        std::vector<uint64_t> d = has1 ? std::vector<uint64_t>{1} : std::vector<uint64_t>{};
        try {
            decode_detection_events_for_up_to_64_observables(m, d, true);
        } catch (const std::invalid_argument&) {
            threw = true;
        }
        sx_assert(threw, "two-pass decoding is accepted although the model was loaded without correlations");
        MatchingResult r = decode_detection_events_for_up_to_64_observables(m, d, false);
        // minimum over subsets
        double best = 1e300;
        std::vector<std::pair<Key, Rec>> es(want.begin(), want.end());
        uint64_t target = has1 ? 2 : 0;
        bool obs_ok = false;
        double got = r.weight / m.flooder.graph.normalising_constant;
        for (int c = 0; c < 1 << es.size(); c++) {
            uint64_t sy = 0, ob = 0;
            double w = 0;
            for (size_t i = 0; i < es.size(); i++)
                if (c >> i & 1) {
                    sy ^= uint64_t{1} << es[i].first.first;
                    if (es[i].first.second != SIZE_MAX)
                        sy ^= uint64_t{1} << es[i].first.second;
                    w += llr(es[i].second.p);
                    for (auto o : es[i].second.obs)
                        ob ^= uint64_t{1} << o;
                }
            if (sy == target) {
                best = std::min(best, w);
                obs_ok |= ob == r.obs_mask && std::abs(w - got) < 1e-4;
            }
        }
        sx_assert(std::abs(got - best) < 1e-4 && obs_ok, "a detector error model is not decoded to its most likely error");
        sx_reach("decoded");
    }
    sx_reach("end");
}

/// models with decomposed errors: the second pass uses P(e | f) = P(e and f) / P(f), capped at one half
static void check_correlated(const std::vector<Err>& errs, int nd) {
    UserGraph ug;
    bool threw = false, bad = false;
    for (auto& e : errs) {
        if (e.p == 0)
            continue;
        bad |= e.p > 0.5;
        for (auto& c : e.c)
            bad |= c.d.size() > 2 || (c.d.empty() && e.c.size() > 1);
    }
    try {
        ug = detector_error_model_to_user_graph(make_dem(errs, nd, 3), true, NUM_DISTINCT_WEIGHTS);
    } catch (const std::invalid_argument&) {
        threw = true;
    }
    sx_assert(threw == bad, "a model with correlations is refused exactly when it has an undecomposed, undetectable or too likely error");
    if (threw || bad) {
        sx_reach("refused");
        return;
    }
    auto want = expected(errs);
    check_edges(ug, want);
    std::map<Key, std::map<Key, double>> joint;
    for (auto& e : errs)
        if (e.p > 0)
            for (auto& a : e.c)
                for (auto& b : e.c)
                    if (!a.d.empty() && !b.d.empty() && key_of(a.d) != key_of(b.d)) {
                        double& x = joint[key_of(a.d)][key_of(b.d)];
                        x = comb(x, e.p);
                    }
    Mwpm& m = ug.get_mwpm_with_search_graph();
    std::vector<std::pair<Key, Rec>> es(want.begin(), want.end());
    uint64_t s = sx_choose("syndrome", 1, (1 << nd) - 1);
    auto dets = dets_of(s, nd);
    std::vector<int64_t> e1;
    MatchingResult r;
    try {
        decode_detection_events_to_edges(m, dets, e1);
        r = decode_detection_events_for_up_to_64_observables(m, dets, true);
    } catch (const std::invalid_argument&) {
        return;
    }
    std::vector<double> w2;
    for (auto& x : es)
        w2.push_back(llr(x.second.p));
    for (size_t i = 0; i + 1 < e1.size(); i += 2) {
        Key f = e1[i + 1] < 0 ? Key(e1[i], SIZE_MAX) : e1[i] < 0 ? Key(e1[i + 1], SIZE_MAX) : Key(std::min(e1[i], e1[i + 1]), std::max(e1[i], e1[i + 1]));
        for (size_t j = 0; j < es.size(); j++)
            if (joint[f].count(es[j].first))
                w2[j] = std::min(w2[j], llr(std::min(0.5, joint[f][es[j].first] / want[f].p)));
    }
    double best = 1e300, got = r.weight / m.flooder.graph.normalising_constant;
    bool obs_ok = false;
    for (int c = 0; c < 1 << es.size(); c++) {
        uint64_t sy = 0, ob = 0;
        double w = 0;
        for (size_t i = 0; i < es.size(); i++)
            if (c >> i & 1) {
                sy ^= uint64_t{1} << es[i].first.first;
                if (es[i].first.second != SIZE_MAX)
                    sy ^= uint64_t{1} << es[i].first.second;
                w += w2[i];
                for (auto o : es[i].second.obs)
                    ob ^= uint64_t{1} << o;
            }
        if (sy == s) {
            best = std::min(best, w);
            obs_ok |= ob == r.obs_mask && std::abs(w - got) < 1e-4;
        }
    }
    sx_assert(std::abs(got - best) < 1e-4, "two-pass decoding of a detector error model does not use the conditional probabilities");
    sx_assert(obs_ok, "two-pass decoding of a detector error model predicts what no error of that likelihood gives");
    sx_reach("end");
}
/// any two components in one error next to single errors
HARNESS(dem_corr_shapes) {
    static const double PR[] = {0.1, 0.3, 0, 0.5, 0.6};
    std::vector<Err> errs = {{0.02, {{{0, 1}, {0}}}}, {0.05, {{{1}, {1}}}}, {0.04, {{{1, 2}, {}}}}, {0.03, {{{0}, {2}}}}};
    Err e;
    e.p = PR[sx_choose("p", 0, 4)];
    e.c.push_back(comp("a", 7, 2));
    if (sx_choose("decomposed", 0, 1)) {
        e.c.push_back(comp("b", 7, 1));
        sx_assume(e.c[0].d.empty() || e.c[1].d.empty() || e.c[0].d.size() > 2 || e.c[1].d.size() > 2 || key_of(e.c[0].d) != key_of(e.c[1].d));
    }
    if (sx_choose("first", 0, 1))
        errs.insert(errs.begin(), e);
    else
        errs.push_back(e);
    check_correlated(errs, 3);
}
/// several decomposed errors sharing components
HARNESS(dem_corr_shared) {
    static const std::vector<uint64_t> C[] = {{0, 1}, {2, 3}, {2}, {0}, {3}};
    std::vector<Err> errs = {{0.01, {{{0, 1}, {0}}}}, {0.02, {{{2, 3}, {1}}}}, {0.01, {{{2}, {2}}}}, {0.02, {{{0}, {}}}}, {0.015, {{{1}, {}}}}, {0.025, {{{3}, {}}}}};
    // rare single errors: the conditional probabilities reach the cap; frequent ones: they stay below it
    bool frequent = sx_choose("frequent", 0, 1);
    if (frequent)
        for (auto& e : errs)
            e.p = 0.2 + 2 * e.p;
    for (int i = 0; i < 2; i++) {
        int a = sx_choose(nm("a", i).c_str(), 0, 4), b = sx_choose(nm("b", i).c_str(), 0, 4);
        sx_assume(a != b);
        if (a == b)
            return;
        Err e{(i ? 0.2 : 0.07) * (frequent ? 0.7 : 1), {{C[a], {}}, {C[b], {}}}};
        if (i == 0 && sx_choose("three", 0, 1)) {
            int c = sx_choose("c", 0, 4);
            sx_assume(c != a && c != b);
            if (c == a || c == b)
                return;
            e.c.push_back({C[c], {}});
        }
        errs.push_back(e);
    }
    check_correlated(errs, 4);
}
/// parallel mechanisms whose probabilities differ by orders of magnitude, with and without correlations loaded
HARNESS(dem_scales) {
    static const double PR[] = {0.3, 0.005, 1e-4, 0.02, 1e-7, 0.45, 0.9};
    bool correlated = sx_choose("correlations", 0, 1);
    bool boundary = sx_choose("boundary", 0, 1);
    std::vector<uint64_t> d = boundary ? std::vector<uint64_t>{1} : std::vector<uint64_t>{0, 1};
    int top = correlated ? 5 : 6;
    std::vector<Err> errs = {{PR[sx_choose("p0", 0, top)], {{d, {1}}}}, {PR[sx_choose("p1", 0, top)], {{d, {1}}}}, {0.03, {{{0}, {0}}}}};
    if (sx_choose("third", 0, 1))
        errs.push_back({PR[sx_choose("p2", 0, top)], {{d, {1}}}});
    UserGraph ug = detector_error_model_to_user_graph(make_dem(errs, 2, 2), correlated, NUM_DISTINCT_WEIGHTS);
    check_edges(ug, expected(errs));
    sx_reach("end");
}
/// the same components together in several errors, next to each alone: conditional probabilities below and above the cap
HARNESS(dem_corr_repeat) {
    static const double S[] = {0.45, 0.3, 0.02};
    static const std::vector<uint64_t> B[] = {{2, 3}, {2}, {1}};
    std::vector<uint64_t> a = {0, 1}, b = B[sx_choose("other", 0, 2)];
    std::vector<Err> errs = {{S[sx_choose("a", 0, 2)], {{a, {0}}}}, {S[sx_choose("b", 0, 2)], {{b, {1}}}}, {0.01, {{{0}, {2}}}}, {0.02, {{{3}, {}}}}};
    int n = sx_choose("together", 1, 3), flip = sx_choose("order", 0, 3);
    for (int i = 0; i < n; i++) {
        bool f = flip >> (i & 1) & 1;
        errs.push_back({0.1 - 0.02 * i, {{f ? b : a, {}}, {f ? a : b, {}}}});
    }
    check_correlated(errs, 4);
}
