// The command line tool's predict and count_mistakes commands (C27). Files and arguments are Stim's; its stand-in hands over what the harness has put into stim::cli.
#include <cmath>
#include <iostream>
#include "stim.h"
namespace std {
struct sink {
    template <typename T> sink& operator<<(const T&) { return *this; }
};
static sink no_cerr, no_cout;
}  // namespace std
#define fprintf stim::cli_print
#define fclose(f) ((void)(f), 0)
#define cerr no_cerr
#define cout no_cout
#include "pymatching/sparse_blossom/driver/namespaced_main.cc"
#undef fprintf
#undef fclose
#undef cerr
#undef cout
#include "ugx.h"
using namespace pm;
int pm::main_animation(int, const char**) { return 0; }
struct E {
    double p;
    std::vector<std::vector<uint64_t>> d;  // detectors of each component
    std::vector<std::vector<uint64_t>> o;  // observables of each component
};
static stim::DetectorErrorModel model(const std::vector<E>& errs, int nd, int no) {
    stim::DetectorErrorModel dem;
    dem.num_detectors = nd;
    dem.num_observables = no;
    for (auto& e : errs) {
        std::vector<stim::DemTarget> t;
        for (size_t i = 0; i < e.d.size(); i++) {
            if (i)
                t.push_back(stim::DemTarget::separator());
            for (auto x : e.d[i])
                t.push_back(stim::DemTarget::relative_detector_id(x));
            for (auto x : e.o[i])
                t.push_back(stim::DemTarget::observable_id(x));
        }
        dem.append_error(e.p, t);
    }
    return dem;
}
/// kind 0: a chain open to the boundary, 1: one component without boundary (odd shots have no correction), 2: correlated errors
static stim::DetectorErrorModel pick(int kind, size_t nobs, double p) {
    uint64_t a = nobs - 1, b = nobs / 2;
    if (kind == 0)
        return model({{p, {{0}}, {{0}}}, {0.125, {{0, 1}}, {{a}}}, {0.25, {{1, 2}}, {{}}}, {0.1875, {{2}}, {{b}}}}, 3, nobs);
    if (kind == 1)
        return model({{p, {{0, 1}}, {{0}}}, {0.125, {{1, 2}}, {{a}}}}, 3, nobs);
    return model({{p, {{0}, {1, 2}}, {{0}, {b}}}, {0.125, {{0, 1}}, {{a}}}, {0.25, {{1, 2}}, {{b}}}, {0.0625, {{2}}, {{}}}, {0.0625, {{0}}, {{0}}}, {0.25, {{1}, {2}}, {{}, {}}}}, 3, nobs);
}
static const size_t NOBS[] = {1, 3, 64, 65, 70};
static const double P[] = {0.0625, 0.4375};
struct Case {
    stim::DetectorErrorModel dem;
    size_t nobs;
    std::vector<std::vector<uint64_t>> hits;
    std::vector<std::vector<uint8_t>> want;  // empty: refused
    size_t good = 0;                         // shots before the first refused one
    bool correlations;
};
static Case set_up(int nshots, int maxobs, int kinds, bool few) {
    Case c;
    c.nobs = NOBS[sx_choose("observables", 0, maxobs)];
    int kind = sx_choose("model", 0, kinds - 1);
    c.correlations = kind == 2;
    c.dem = pick(kind, c.nobs, P[sx_choose("p", 0, 1)]);
    stim::DetectorErrorModel::source = &c.dem;
    stim::cli = stim::Cli();
    stim::cli.correlations = c.correlations;
    // every shot on a decoder of its own
    static const int SH[] = {0, 5, 2, 7};
    bool all = true;
    for (int i = 0; i < nshots; i++) {
        int s = few || i ? SH[sx_choose(nm("shot", i).c_str(), 0, 3)] : sx_choose("shot", 0, 7);
        std::vector<uint8_t> row;
        std::vector<uint64_t> hits;
        for (int k = 0; k < 3; k++) {
            row.push_back(s >> k & 1);
            if (s >> k & 1)
                hits.push_back(k);
        }
        stim::cli.dets.push_back(row);
        c.hits.push_back(hits);
        UserGraph ug = detector_error_model_to_user_graph(c.dem, c.correlations, NUM_DISTINCT_WEIGHTS);
        Mwpm& m = c.nobs > 64 || c.correlations ? ug.get_mwpm_with_search_graph() : ug.get_mwpm();
        std::vector<uint8_t> obs(c.nobs, 0);
        total_weight_int w = 0;
        try {
            decode_detection_events(m, hits, obs.data(), w, c.correlations);
        } catch (const std::invalid_argument&) {
            all = false;
        }
        if (all) {
            c.good++;
            c.want.push_back(obs);
        }
    }
    return c;
}
static int run(const char* command) {
    const char* argv[] = {"pymatching", command};
    return pm::main(2, argv);
}
static void predict(int nshots, bool few) {
    Case c = set_up(nshots, 4, 3, few);
    stim::cli.append_obs = sx_choose("appended", 0, 1);
    for (int i = 0; i < nshots; i++)
        stim::cli.obs.push_back(std::vector<uint8_t>(c.nobs, 1));
    int rc = run("predict");
    sx_assert((rc == EXIT_SUCCESS) == (c.good == (size_t)nshots), "predict fails exactly when a shot has no correction");
    auto& w = stim::cli.written;
    sx_assert(w.size() == c.good, "predict does not write one prediction per shot");
    for (size_t i = 0; i < w.size() && i < c.want.size(); i++)
        sx_assert(w[i] == c.want[i], "predict writes another prediction than decoding the shot gives");
    sx_reach("end");
}
HARNESS(predict_one) { predict(1, false); }
HARNESS(predict_two) { predict(2, false); }
HARNESS(predict_three) { predict(3, true); }
static void count(int nshots, bool few) {
    Case c = set_up(nshots, 4, 3, few);
    int where = sx_choose("recorded", 0, 3);  // 0 appended, 1 in a file of their own, 2 nowhere, 3 in a file that ends too early
    stim::cli.append_obs = where == 0;
    stim::cli.separate_obs = where == 1 || where == 3;
    if (where == 3)
        stim::cli.obs_shots = nshots - 1;
    size_t mistakes = 0;
    for (int i = 0; i < nshots; i++) {
        std::vector<uint8_t> row(c.nobs, 0);
        for (size_t k = 0; k < c.nobs; k++)
            if (k == 0 || k == c.nobs - 1 || k == c.nobs / 2)
                row[k] = (uint8_t)(k == 63 ? sx_choose(nm("obs", i * 100 + (long)k).c_str(), 0, 1) : sx_int(nm("obs", i * 100 + (long)k).c_str(), 0, 1));
        stim::cli.obs.push_back(row);
        if ((size_t)i < c.want.size()) {
            bool differ = false;
            for (size_t k = 0; k < c.nobs; k++)
                differ |= row[k] != c.want[i][k];
            mistakes += differ;
        }
    }
    int rc = run("count_mistakes");
    bool ok = c.good == (size_t)nshots && where < 2;
    sx_assert((rc == EXIT_SUCCESS) == ok, "count_mistakes fails exactly when a shot has no correction or no recorded observables");
    auto& p = stim::cli.printed;
    if (ok && rc == EXIT_SUCCESS)
        sx_assert(p.size() == 2 && p[0] == mistakes && p[1] == (size_t)nshots, "count_mistakes counts other shots than those predicted wrongly");
    else
        sx_assert(p.empty(), "count_mistakes prints a count although it failed");
    sx_reach("end");
}
HARNESS(count_one) { count(1, false); }
HARNESS(count_two) { count(2, false); }
HARNESS(count_three) { count(3, true); }
