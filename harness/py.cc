// The functions that the Python module binds (user_graph.pybind.cc), called through a stand-in for pybind11 and NumPy:
// check matrices (C25), batches of shots (C26), reading a graph back (C28), forms of the result (C29).
#include <cmath>
#include "pymatching/sparse_blossom/driver/user_graph.pybind.cc"
#include "ugx.h"
using namespace pm;
namespace pybind11 { int py_warnings = 0; }
#ifndef WLO
#define WLO 0
#endif
#ifndef WHI
#define WHI ((1 << 24) - 1)
#endif
static void bind() {
    py::registry().clear();
    py::module m;
    auto g = pm_pybind::pybind_user_graph(m);
    pm_pybind::pybind_user_graph_methods(m, g);
}
template <typename T> static std::vector<T> elems(const py::object& a) {
    py::array_t<T> x = a.cast<py::array_t<T>>();
    return std::vector<T>(x.data(), x.data() + x.size());
}
template <typename... A> static bool pcall(py::object& out, const char* name, A&&... a) {
    try {
        out = py::py_call(name, std::forward<A>(a)...);
        return true;
    } catch (const std::invalid_argument&) {
        return false;
    }
}
static py::object arr64(const std::vector<uint64_t>& v) { return py::py_array<uint64_t>(v); }

// ------------------------------------------------------------------------------------------------ C25 check matrices
/// a column is the set of its rows, as bits
static py::object csc(int rows, const std::vector<uint64_t>& cols, bool reversed = false) {
    std::vector<uint8_t> data;
    std::vector<int32_t> idx, ptr = {0};
    for (auto c : cols) {
        for (int k = 0; k < rows; k++) {
            int r = reversed ? rows - 1 - k : k;
            if (c >> r & 1) {
                idx.push_back(r);
                data.push_back(1);
            }
        }
        ptr.push_back((int32_t)idx.size());
    }
    return py::py_csc(rows, cols.size(), data, idx, ptr);
}
struct Want {
    int64_t w;
    double p;
    std::vector<size_t> obs;
};
using WKey = std::pair<long, long>;
/// what merging under a strategy gives; false: refused
static bool merge_in(std::map<WKey, Want>& m, long u, long v, Want x, int strategy) {
    if (v >= 0 && v < u)
        std::swap(u, v);
    auto it = m.find({u, v});
    if (it == m.end()) {
        m[{u, v}] = x;
        return true;
    }
    if (strategy == 0)
        return false;  // disallow
    if (strategy == 1) {  // smallest-weight
        if (x.w < it->second.w)
            it->second = x;
    } else if (strategy == 3) {  // replace
        it->second = x;
    }
    return true;  // keep-original
}
static const char* const STRATEGY[] = {"disallow", "smallest-weight", "keep-original", "replace"};
static void check_matrix(int rows, int ncols, int nfaults, bool faults, int reps, int shapes, int layout = 0) {
    bind();
    auto darr = [&](const std::vector<double>& v) { return py::py_array_as<double>(layout, {(py::ssize_t)v.size()}, v); };
    int strategy = sx_choose("strategy", 0, 3);
    bool virt = sx_choose("virtual", 0, 1), rev = shapes > 1 ? false : sx_choose("unsorted", 0, 1);
    std::vector<uint64_t> cols, fcols;
    std::vector<int64_t> w, tw;
    std::vector<double> wd, pd, twd, tpd;
    bool refused = false;
    for (int c = 0; c < ncols; c++) {
        uint64_t m = sx_choose(nm("col", c).c_str(), 0, (1 << rows) - 1);
        refused |= __builtin_popcountll(m) > 2;
        cols.push_back(m);
        uint64_t f = faults ? (uint64_t)(c * 3 + 1) % (uint64_t{1} << nfaults) : uint64_t{1} << c;
        fcols.push_back(f);
        w.push_back(sx_int(nm("w", c).c_str(), WLO, WHI));
        wd.push_back((double)w[c]);
        pd.push_back((c + 1) / 16.0);
    }
    for (int r = 0; r < rows; r++) {
        tw.push_back(sx_int(nm("t", r).c_str(), WLO, WHI));
        twd.push_back((double)tw[r]);
        tpd.push_back((r + 9) / 32.0);
    }
    // expected
    std::map<WKey, Want> want;
    bool clash = false;
    long bn = (long)rows * reps;
    for (int rep = 0; rep < reps; rep++)
        for (int c = 0; c < ncols; c++) {
            std::vector<long> d;
            for (int r = 0; r < rows; r++)
                if (cols[c] >> r & 1)
                    d.push_back(r + rows * rep);
            std::vector<size_t> obs;
            for (int k = 0; k < 64; k++)
                if (fcols[c] >> k & 1)
                    obs.push_back(k);
            if (d.size() == 2)
                clash |= !merge_in(want, d[0], d[1], {w[c], pd[c], obs}, strategy);
            else if (d.size() == 1)
                clash |= !merge_in(want, d[0], virt ? -1 : bn, {w[c], pd[c], obs}, strategy);
        }
    for (int rep = 0; rep + 1 < reps; rep++)
        for (int r = 0; r < rows; r++)
            clash |= !merge_in(want, r + rows * rep, r + rows * (rep + 1), {tw[r], tpd[r], {}}, strategy);
    py::object out, F = faults ? csc(nfaults, fcols) : py::object(py::none());
    py::object none = py::none();
    bool ok = pcall(out, "sparse_column_check_matrix_to_matching_graph", csc(rows, cols, rev), darr(wd), darr(pd), std::string(STRATEGY[strategy]), virt,
                    (size_t)reps, reps > 1 ? darr(twd) : none, reps > 1 ? darr(tpd) : none, F);
    sx_assert(ok == !(refused || clash), "a check matrix is refused exactly when a column has more than two ones or parallel edges are disallowed");
    if (!ok) {
        sx_reach("refused");
        return;
    }
    UserGraph& ug = py::conv<UserGraph>::from(out);
    bool has_b = false;
    for (auto& x : want)
        has_b |= x.first.second == bn;
    sx_assert(ug.get_num_edges() == want.size(), "a check matrix gives another number of edges");
    sx_assert(ug.get_num_observables() == (size_t)(faults ? nfaults : ncols), "a check matrix gives another number of fault ids");
    sx_assert(ug.get_num_nodes() == (size_t)bn + has_b && ug.get_num_detectors() == (size_t)bn, "a check matrix gives other nodes");
    sx_assert(ug.get_boundary() == (has_b ? std::set<size_t>{(size_t)bn} : std::set<size_t>{}), "a check matrix gives another boundary");
    for (auto& x : want) {
        long u = x.first.first, v = x.first.second;
        py::object d;
        bool have = v < 0 ? pcall(d, "get_boundary_edge_data", py::py_ref(ug), (size_t)u) : pcall(d, "get_edge_data", py::py_ref(ug), (size_t)u, (size_t)v);
        sx_assert(have, "a column of a check matrix has no edge");
        if (!have)
            return;
        sx_assert(d["weight"].cast<double>() == (double)x.second.w, "the edge of a check matrix column has another weight");
        sx_assert(d["error_probability"].cast<double>() == x.second.p, "the edge of a check matrix column has another error probability");
        auto obs = d["fault_ids"].cast<std::set<size_t>>();
        sx_assert(obs == std::set<size_t>(x.second.obs.begin(), x.second.obs.end()), "the edge of a check matrix column has other fault ids");
    }
    sx_reach("end");
}
HARNESS(cm_columns) { check_matrix(3, 2, 0, false, 1, 2); }
HARNESS(cm_parallel) { check_matrix(2, 3, 0, false, 1, 1); }
HARNESS(cm_faults) { check_matrix(2, 3, 4, true, 1, 1); }
HARNESS(cm_repeat) { check_matrix(2, 2, 3, true, 3, 1); }
HARNESS(cm_repeat3) { check_matrix(3, 2, 0, false, 2, 2); }
HARNESS(cm_layout) { check_matrix(2, 2, 0, false, 2, 1, 2); }
HARNESS(cm_wide) { check_matrix(4, 3, 0, false, 2, 2); }
/// malformed matrices are refused
HARNESS(cm_malformed) {
    bind();
    int what = sx_choose("what", 0, 7);
    uint8_t val = (uint8_t)sx_int("value", 0, 255);
    std::vector<uint8_t> data = {1, 1, val};
    std::vector<int32_t> idx = {0, 1, 1}, ptr = {0, 2, 3};
    std::vector<double> w = {1, 2}, p = {0.1, 0.2}, t = {1, 1};
    bool bad = val != 1;
    py::object F = py::none(), T = py::none(), none = py::none();
    size_t reps = 1;
    if (what == 1) { w.push_back(3); bad = true; }
    if (what == 2) { p.pop_back(); bad = true; }
    if (what == 3) { data.push_back(1); bad = true; }
    if (what == 4) { ptr.push_back(3); bad = true; }
    if (what == 5) { F = csc(2, {1, 2, 3}); bad = true; }
    if (what == 6) { reps = 2; t.push_back(1); bad = true; T = py::py_array<double>(t); }
    if (what == 7) { F = csc(2, {1, 2}); }
    py::object out;
    bool ok = pcall(out, "sparse_column_check_matrix_to_matching_graph", py::py_csc(2, 2, data, idx, ptr), py::py_array<double>(w), py::py_array<double>(p), std::string("smallest-weight"),
                    true, reps, T, T, F);
    sx_assert(ok == !bad, "a check matrix is refused exactly when it is malformed");
    sx_reach("end");
}

// ------------------------------------------------------------------------------------------------ C26 batches
static void spread_obs(Inst& g, size_t nobs) {
    g.num_obs = nobs;
    for (size_t i = 0; i < g.e.size(); i++)
        g.obs[i] = {(i * 13 + 5) % nobs, (i * 7 + 2) % nobs == (i * 13 + 5) % nobs ? (i * 13 + 5 + nobs / 2) % nobs : (i * 7 + 2) % nobs};
    for (auto& o : g.obs)
        if (o[0] == o[1])
            o.pop_back();
}
static void batch(Inst g, int nshots, const std::vector<size_t>& nobs_choice, const std::vector<uint64_t>& synds, bool bnode, bool same, int layouts = 0) {
    bind();
    int layout = layouts ? sx_choose("layout", 1, layouts) : 0;
    spread_obs(g, nobs_choice[sx_choose("observables", 0, (long)nobs_choice.size() - 1)]);
    bool pack_in = sx_choose("packed_shots", 0, 1), pack_out = sx_choose("packed_predictions", 0, 1);
    UserGraph ug(g.n, g.num_obs), fresh(g.n, g.num_obs);
    fill_user_graph(ug, g, bnode ? B_NODE : B_EDGE);
    fill_user_graph(fresh, g, bnode ? B_NODE : B_EDGE);
    size_t cols = ug.get_num_detectors();
    if (bnode && sx_choose("wide", 0, 1))
        cols = ug.get_num_nodes();
    size_t width = pack_in ? (cols + 7) / 8 : cols;
    std::vector<uint8_t> bits(width * nshots, 0);
    std::vector<std::vector<uint64_t>> dets;
    for (int i = 0; i < nshots; i++) {
        uint64_t s = synds[sx_choose(nm("shot", i).c_str(), 0, (long)synds.size() - 1)];
        if (cols == ug.get_num_nodes() && bnode && i == 0)
            s |= uint64_t{1} << g.n;  // a detection event on the boundary node
        dets.push_back(dets_of(s, 63));
        for (auto d : dets.back())
            if (pack_in)
                bits[i * width + d / 8] |= 1 << (d % 8);
            else
                bits[i * width + d] = same ? 1 : (uint8_t)(i + 1);
    }
    py::object out;
    bool ok = pcall(out, "decode_batch", py::py_ref(ug), py::py_array_as<uint8_t>(layout, {nshots, (py::ssize_t)width}, bits), pack_in, pack_out, false), all = true;
    std::vector<std::vector<uint8_t>> one;
    std::vector<double> ws;
    for (int i = 0; i < nshots && all; i++) {
        py::object r;
        all = pcall(r, "decode", py::py_ref(fresh), arr64(dets[i]), false);
        if (all) {
            one.push_back(elems<uint8_t>(r[0]));
            ws.push_back(r[1].cast<double>());
        }
    }
    sx_assert(ok == all, "a batch is refused exactly when one of its shots is");
    if (!ok || !all)
        return;
    auto P = out[0].cast<py::array_t<uint8_t>>();
    auto W = elems<double>(out[1]);
    size_t pw = pack_out ? (g.num_obs + 7) / 8 : g.num_obs;
    sx_assert(P.ndim() == 2 && P.shape(0) == nshots && (size_t)P.shape(1) == pw && W.size() == (size_t)nshots, "the results of a batch have another shape");
    if (P.ndim() != 2 || (size_t)P.size() != pw * nshots || W.size() != (size_t)nshots)
        return;
    for (int i = 0; i < nshots; i++) {
        sx_assert(one[i].size() == g.num_obs, "a prediction has another number of entries");
        std::vector<uint8_t> row(pw, 0);
        for (size_t k = 0; k < g.num_obs; k++) {
            if (pack_out)
                row[k / 8] |= (uint8_t)(one[i][k] << (k % 8));
            else
                row[k] = one[i][k];
        }
        for (size_t k = 0; k < pw; k++)
            sx_assert(P.data()[i * pw + k] == row[k], "a shot of a batch is not predicted as on its own");
        sx_assert(W[i] == ws[i], "a shot of a batch has another weight than on its own");
    }
    sx_reach("end");
}
static Inst line(int n, std::vector<int> sym, int64_t lo, int64_t hi) {
    Inst g;
    g.n = n;
    for (int i = 0; i + 1 < n; i++)
        g.e.push_back({i, i + 1});
    g.e.push_back({0, -1});
    g.e.push_back({n - 1, -1});
    for (size_t i = 0; i < g.e.size(); i++) {
        g.w.push_back(2 * (int64_t)(3 + (i * 5) % 7));
        g.obs.push_back({});
    }
    for (auto i : sym)
        g.w[i] = 2 * sx_int(nm("w", i).c_str(), lo, hi);
    return g;
}
HARNESS(batch_pair) { batch(line(2, {0, 1, 2}, WLO, WHI), 2, {1, 9, 65}, {0, 1, 2, 3}, false, false); }
HARNESS(batch_wide) { batch(line(10, {4, 9}, WLO, WHI), 2, {8, 64, 70}, {0, 0x201, 0x180, 0x2c4}, false, true); }
HARNESS(batch_three) { batch(line(3, {1}, WLO, WHI), 3, {3, 17}, {1, 4, 6, 0}, false, false); }
HARNESS(batch_bnode) { batch(line(8, {3, 7}, WLO, WHI), 2, {2, 16}, {0, 0x81, 0x18, 0x40}, true, true); }
/// arrays of shots that are column-major, or every second row and column of a larger array
HARNESS(batch_layout) { batch(line(9, {3}, WLO, WHI), 2, {9}, {1, 0x101, 0x18, 0}, false, false, 2); }
/// shots of another width are refused
HARNESS(batch_shape) {
    bind();
    int n = sx_choose("detectors", 7, 9), extra = sx_choose("boundary", 0, 2);
    bool pack = sx_choose("packed", 0, 1);
    UserGraph ug(n, 1);
    std::set<size_t> b;
    for (int i = 0; i + 1 < n; i++)
        ug.add_or_merge_edge(i, i + 1, {0}, 1, -1);
    for (int i = 0; i < extra; i++) {
        ug.add_or_merge_edge(i, n + i, {0}, 1, -1);
        b.insert(n + i);
    }
    ug.set_boundary(b);
    int cols = sx_choose("columns", 0, 12);
    int lo = pack ? (n + 7) / 8 : n, hi = pack ? (n + extra + 7) / 8 : n + extra;
    py::object out;
    bool ok = pcall(out, "decode_batch", py::py_ref(ug), py::py_array<uint8_t>({1, cols}, std::vector<uint8_t>(cols, 0)), pack, false, false);
    sx_assert(ok == (cols >= lo && cols <= hi), "a batch is refused exactly when its rows are too short or too long");
    sx_reach("end");
}

// ------------------------------------------------------------------------------------------------ C28 reading a graph back
HARNESS(read_back) {
    bind();
    UserGraph ug;
    std::map<WKey, Want> want;
    std::vector<WKey> order;
    long maxn = -1;
    size_t nobs = 0;
    bool allp = true;
    static const double PR[] = {0.25, -1, 1, 1.5};
    int steps = TIER ? 4 : 3;
    for (int k = 0; k < steps; k++) {
        int kind = sx_choose(nm("kind", k).c_str(), 0, 1);
        long u = sx_choose(nm("u", k).c_str(), k == 0 ? -1 : 0, 2), v = kind ? sx_choose(nm("v", k).c_str(), 0, k == 1 ? 3 : 2) : -1;
        int64_t lim = k == 1 ? 1 << 25 : (1 << 24) - 1, w = sx_int(nm("w", k).c_str(), -lim, lim);
        double p = PR[k == 1 ? sx_choose("p", 0, 3) : 0];
        std::set<size_t> obs = {(size_t)k, (size_t)(k * 4 + 1)};
        bool refuse = u < 0, drop = w > (1 << 24) - 1 || w < -((1 << 24) - 1);
        int before = py::py_warnings;
        py::object r;
        WKey key = kind ? WKey{std::min(u, v), std::max(u, v)} : WKey{u, -1};
        bool exists = want.count(key);
        bool ok = kind ? pcall(r, "add_edge", py::py_ref(ug), u, v, obs, (double)w, p, std::string("disallow")) : pcall(r, "add_boundary_edge", py::py_ref(ug), u, obs, (double)w, p, std::string("disallow"));
        if (refuse) {
            sx_assert(!ok, "a negative node index is accepted");
            sx_reach("end");
            return;
        }
        sx_assert(ok == (drop || !exists), "an edge is refused exactly when it exists already");
        sx_assert(py::py_warnings - before == (drop ? 1 : 0), "a warning is given exactly for weights beyond the limit");
        if (drop)
            continue;
        if (exists)
            continue;
        want[key] = {w, p, std::vector<size_t>(obs.begin(), obs.end())};
        order.push_back(key);
        maxn = std::max(maxn, std::max(u, v));
        nobs = std::max(nobs, *obs.rbegin() + 1);
        allp &= p >= 0 && p <= 1;
    }
    sx_assert((long)ug.get_num_nodes() == maxn + 1, "the number of nodes is not that of the edges added");
    sx_assert(ug.get_num_edges() == order.size(), "the number of edges is not that of the edges added");
    sx_assert(ug.get_num_observables() == nobs, "the number of observables is not that of the edges added");
    sx_assert(ug.all_edges_have_error_probabilities() == allp, "the graph misreports whether all edges have error probabilities");
    for (long u = 0; u < 4; u++)
        for (long v = -1; v < 4; v++) {
            WKey key = v < 0 ? WKey{u, -1} : WKey{std::min(u, v), std::max(u, v)};
            bool have = want.count(key);
            py::object r, d;
            bool ok = v < 0 ? pcall(r, "has_boundary_edge", py::py_ref(ug), (size_t)u) : pcall(r, "has_edge", py::py_ref(ug), (size_t)u, (size_t)v);
            sx_assert(ok && r.cast<bool>() == have, "an edge is reported exactly when it was added");
            ok = v < 0 ? pcall(d, "get_boundary_edge_data", py::py_ref(ug), (size_t)u) : pcall(d, "get_edge_data", py::py_ref(ug), (size_t)u, (size_t)v);
            sx_assert(ok == have, "data of an edge is given exactly when it was added");
            if (ok && have) {
                auto& x = want[key];
                sx_assert(d["weight"].cast<double>() == (double)x.w && d["error_probability"].cast<double>() == x.p &&
                              d["fault_ids"].cast<std::set<size_t>>() == std::set<size_t>(x.obs.begin(), x.obs.end()),
                          "the data of an edge is not what was added");
            }
        }
    py::object l = py::py_call("get_edges", py::py_ref(ug));
    sx_assert(l.size() == (long)order.size(), "the list of edges has another length");
    std::set<WKey> seen;
    for (size_t i = 0; i < order.size() && i < (size_t)l.size(); i++) {
        py::object e = l[(long)i], d = e[2];
        long a = e[0].cast<long>(), b = e[1].is_none() ? -1 : e[1].cast<long>();
        WKey key = b < 0 ? WKey{a, -1} : WKey{std::min(a, b), std::max(a, b)};
        sx_assert(want.count(key) && !seen.count(key), "the list of edges holds an edge that was not added");
        seen.insert(key);
        if (!want.count(key))
            continue;
        auto& x = want[key];
        double p = x.p >= 0 && x.p <= 1 ? x.p : -1;
        sx_assert(d["weight"].cast<double>() == (double)x.w && d["error_probability"].cast<double>() == p &&
                      d["fault_ids"].cast<std::set<size_t>>() == std::set<size_t>(x.obs.begin(), x.obs.end()),
                  "the list of edges holds other data than was added");
    }
    sx_reach("end");
}

// ------------------------------------------------------------------------------------------------ C29 forms of the result
static void forms(Inst g, bool bnode, int64_t scale) {
    bind();
    UserGraph ug(g.n, g.num_obs);
    fill_user_graph(ug, g, bnode ? B_NODE : B_EDGE);
    uint64_t s = sx_choose("syndrome", 0, (1 << g.n) - 1);
    auto dets = dets_of(s, g.n);
    Oracle o(g);
    bool neg = false;
    for (auto w : g.w)
        neg |= w < 0;
    py::object R, E, A, D;
    bool first = sx_choose("edges_first", 0, 1), okE = false;
    if (first)
        okE = pcall(E, "decode_to_edges_array", py::py_ref(ug), arr64(dets), false);
    bool okR = pcall(R, "decode", py::py_ref(ug), arr64(dets), false);
    if (!first)
        okE = pcall(E, "decode_to_edges_array", py::py_ref(ug), arr64(dets), false);
    bool okA = pcall(A, "decode_to_matched_detection_events_array", py::py_ref(ug), arr64(dets));
    bool okD = pcall(D, "decode_to_matched_detection_events_dict", py::py_ref(ug), arr64(dets));
    bool f = o.feasible(s);
    sx_assert(okR == f && okE == f && okA == (f && !neg) && okD == (f && !neg), "a form of decoding accepts other shots than the others");
    if (!okR || !okE || !f)
        return;
    auto obs = elems<uint8_t>(R[0]);
    double w = R[1].cast<double>();
    sx_assert(obs.size() == g.num_obs, "a prediction has another number of entries");
    uint64_t mask = 0;
    for (size_t i = 0; i < obs.size(); i++)
        mask |= (uint64_t)(obs[i] & 1) << i;
    int64_t wi = (int64_t)w;
    sx_assert((double)wi == w, "the weight of integral weights is not integral");
    for (auto c : o.by_synd[s])
        sx_assert(2 * wi <= o.cost[c], "the weight is not the smallest");
    sx_assert(o.consistent(s, mask), "the predicted fault ids are those of no correction");
    if (o.consistent(s, mask))
        sx_assert(o.cost[mask] == 2 * wi, "the weight is not that of the predicted correction");
    // edges
    auto Ea = E.cast<py::array_t<int64_t>>();
    sx_assert(Ea.ndim() == 2 && Ea.shape(1) == 2, "the edges are not an array of pairs");
    uint64_t em = 0;
    for (long i = 0; i < Ea.size() / 2; i++) {
        int64_t a = Ea.data()[2 * i], b = Ea.data()[2 * i + 1];
        long hit = -1;
        for (size_t k = 0; k < g.e.size(); k++)
            if ((g.e[k].u == a && g.e[k].v == b) || (g.e[k].u == b && g.e[k].v == a))
                hit = k;
        sx_assert(hit >= 0 && !(em >> hit & 1), "an edge of the result is not in the graph, or occurs twice");
        if (hit >= 0)
            em |= uint64_t{1} << hit;
    }
    sx_assert(o.consistent(s, em), "the edges of the result do not give the syndrome");
    if (o.consistent(s, em))
        sx_assert(o.cost[em] == 2 * wi, "the edges of the result have another weight than the result");
    if (!okA || !okD)
        return sx_reach("end");
    auto Aa = A.cast<py::array_t<int64_t>>();
    sx_assert(Aa.ndim() == 2 && Aa.shape(1) == 2, "the matched detection events are not an array of pairs");
    uint64_t seen = 0;
    std::map<long, long> pairs;
    for (long i = 0; i < Aa.size() / 2; i++)
        for (int k = 0; k < 2; k++) {
            int64_t a = Aa.data()[2 * i + k], b = Aa.data()[2 * i + 1 - k];
            if (a < 0) {
                sx_assert(a == -1 && k == 1 && b >= 0, "the boundary is not -1 in the second place");
                continue;
            }
            bool fine = a < g.n && (s >> a & 1) && !(seen >> a & 1);
            sx_assert(fine, "a node of the matched pairs is no detection event, or occurs twice");
            if (fine) {
                seen |= uint64_t{1} << a;
                pairs[a] = b;
            }
        }
    sx_assert(seen == s, "a detection event is missing from the matched pairs");
    sx_assert(D.size() == (long)pairs.size(), "the dictionary of matched events has another size");
    for (auto& x : pairs) {
        py::object v = D[(int64_t)x.first];
        sx_assert(v && (v.is_none() ? -1 : v.cast<long>()) == x.second, "the dictionary of matched events differs from the array");
    }
    sx_reach("end");
}
HARNESS(forms_pair) { forms(sym_inst(2, {{0, 1}, {0, -1}, {1, -1}}, WLO, WHI), false, 1); }
HARNESS(forms_chain) { forms(sym_inst(3, {{0, 1}, {1, 2}, {0, -1}}, WLO, WHI), false, 1); }
HARNESS(forms_bnode) { forms(sym_inst(2, {{0, 1}, {1, -1}}, WLO, WHI), true, 1); }
HARNESS(forms_tri) { forms(sym_inst(3, {{0, 1}, {1, 2}, {0, 2}, {2, -1}}, WLO, WHI), false, 1); }

// ------------------------------------------------------------------------------------------------ two-pass decoding through the bindings
static stim::DetectorErrorModel corr_model(double p, double q, size_t nobs) {
    stim::DetectorErrorModel dem;
    dem.num_detectors = 4;
    dem.num_observables = nobs;
    auto D = [](uint64_t i) { return stim::DemTarget::relative_detector_id(i); };
    auto L = [&](uint64_t i) { return stim::DemTarget::observable_id(i % nobs); };
    auto sep = stim::DemTarget::separator();
    dem.append_error(p, {D(0), D(1), L(0), sep, D(2), D(3)});
    dem.append_error(q, {D(1), D(2), L(7), sep, D(0), L(64)});
    dem.append_error(0.0625, {D(0), L(3)});
    dem.append_error(0.125, {D(3), L(8)});
    dem.append_error(0.03125, {D(1), D(2), L(5)});
    dem.append_error(0.1875, {D(2), D(3), L(1)});
    return dem;
}
/// batches of shots on a model loaded with correlations, decoded with and without them, against the decoding functions on fresh graphs
HARNESS(batch_corr) {
    bind();
    static const double PR[] = {0.25, 0.05, 0.4};
    static const size_t NO[] = {3, 9, 70};
    size_t nobs = NO[sx_choose("observables", 0, 2)];
    auto dem = corr_model(PR[sx_choose("p", 0, 2)], PR[sx_choose("q", 0, 2)], nobs);
    bool pack_out = sx_choose("packed_predictions", 0, 1), pack_in = sx_choose("packed_shots", 0, 1);
    UserGraph ug = detector_error_model_to_user_graph(dem, true, NUM_DISTINCT_WEIGHTS);
    int first = sx_choose("earlier", 0, 2);  // nothing, a batch without correlations, a batch with correlations
    static const int SH[] = {0xf, 0x6, 0x9, 0x1, 0x0, 0xc};
    int n = TIER ? 4 : 3;
    std::vector<int> shots;
    for (int i = 0; i < n; i++)
        shots.push_back(SH[i < 2 ? sx_choose(nm("shot", i).c_str(), 0, 5) : (shots[0] + i) % 6]);
    auto rows = [&](const std::vector<int>& s) {
        std::vector<uint8_t> b;
        for (auto x : s)
            if (pack_in)
                b.push_back((uint8_t)x);
            else
                for (int k = 0; k < 4; k++)
                    b.push_back(x >> k & 1);
        return py::py_array<uint8_t>({(py::ssize_t)s.size(), pack_in ? 1 : 4}, b);
    };
    py::object out;
    if (first)
        sx_assert(pcall(out, "decode_batch", py::py_ref(ug), rows({0xf, 0x3}), pack_in, pack_out, first == 2), "a batch that has corrections is refused");
    for (int corr = 1; corr >= 0; corr--) {
        if (!pcall(out, "decode_batch", py::py_ref(ug), rows(shots), pack_in, pack_out, corr == 1)) {
            sx_assert(false, "a batch that has corrections is refused");
            return;
        }
        auto P = out[0].cast<py::array_t<uint8_t>>();
        auto W = elems<double>(out[1]);
        size_t pw = pack_out ? (nobs + 7) / 8 : nobs;
        bool shape = P.ndim() == 2 && P.shape(0) == n && (size_t)P.shape(1) == pw && W.size() == (size_t)n;
        sx_assert(shape, "the results of a batch have another shape");
        if (!shape)
            return;
        for (int i = 0; i < n; i++) {
            UserGraph fresh = detector_error_model_to_user_graph(dem, true, NUM_DISTINCT_WEIGHTS);
            Mwpm& m = fresh.get_mwpm_with_search_graph();
            std::vector<uint8_t> obs(nobs, 0), row(pw, 0);
            total_weight_int w = 0;
            decode_detection_events(m, dets_of(shots[i], 4), obs.data(), w, corr == 1);
            for (size_t k = 0; k < nobs; k++)
                if (pack_out)
                    row[k / 8] |= (uint8_t)(obs[k] << (k % 8));
                else
                    row[k] = obs[k];
            for (size_t k = 0; k < pw; k++)
                sx_assert(P.data()[i * pw + k] == row[k], "a shot of a batch is not predicted as on its own");
            sx_assert(W[i] == (double)w / m.flooder.graph.normalising_constant, "a shot of a batch has another weight than on its own");
        }
    }
    sx_reach("end");
}
/// the decoding calls with correlations enabled, against the decoding functions on fresh graphs
HARNESS(forms_corr) {
    bind();
    static const double PR[] = {0.25, 0.05, 0.4};
    static const size_t NO[] = {3, 9, 70};
    size_t nobs = NO[sx_choose("observables", 0, 2)];
    auto dem = corr_model(PR[sx_choose("p", 0, 2)], PR[sx_choose("q", 0, 2)], nobs);
    UserGraph ug = detector_error_model_to_user_graph(dem, true, NUM_DISTINCT_WEIGHTS);
    int s = sx_choose("syndrome", 0, 15);
    for (int k = 0; k < 3; k++) {
        int what = sx_choose(nm("call", k).c_str(), 0, 3);
        bool corr = what & 1, edges = what & 2;
        UserGraph fresh = detector_error_model_to_user_graph(dem, true, NUM_DISTINCT_WEIGHTS);
        Mwpm& m = fresh.get_mwpm_with_search_graph();
        py::object r;
        bool ok = pcall(r, edges ? "decode_to_edges_array" : "decode", py::py_ref(ug), arr64(dets_of(s, 4)), corr);
        sx_assert(ok, "a shot that has a correction is refused");
        if (!ok)
            return;
        if (edges) {
            auto got = elems<int64_t>(r);
            std::vector<int64_t> want;
            if (corr)
                decode_detection_events_to_edges_with_edge_correlations(m, dets_of(s, 4), want);
            else
                decode_detection_events_to_edges(m, dets_of(s, 4), want);
            sx_assert(got == want, "the edges given are not those of the decoding function with the requested correlations");
            int syn = 0;
            for (auto x : got)
                if (x >= 0)
                    syn ^= 1 << x;
            sx_assert(syn == s, "the edges given do not have the syndrome");
        } else {
            std::vector<uint8_t> obs(nobs, 0);
            total_weight_int w = 0;
            decode_detection_events(m, dets_of(s, 4), obs.data(), w, corr);
            sx_assert(elems<uint8_t>(r[0]) == obs, "the fault ids given are not those of the decoding function with the requested correlations");
            sx_assert(r[1].cast<double>() == (double)w / m.flooder.graph.normalising_constant, "the weight given is not that of the decoding function with the requested correlations");
        }
    }
    sx_reach("end");
}
/// longer batches
HARNESS(batch_many) { batch(line(4, {2}, WLO, WHI), TIER ? 8 : 6, {9}, {0, 9}, false, false); }
