// Minimal stand-in for the parts of Stim's interface that PyMatching's driver sources use (Stim is not available offline).
// Only data access is modelled; the semantics of these accessors follow Stim's documented behaviour.
#pragma once
#include <algorithm>
#include <array>
#include <cassert>
#include <cmath>
#include <cstdint>
#include <chrono>
#include <cstdio>
#include <cstring>
#include <memory>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <unordered_map>
#include <utility>
#include <vector>
namespace stim {
template <typename T>
struct SpanRef {
    T* ptr_start; T* ptr_end;
    T* begin() const { return ptr_start; }
    T* end() const { return ptr_end; }
    size_t size() const { return ptr_end - ptr_start; }
    bool empty() const { return ptr_start == ptr_end; }
    T& operator[](size_t i) const { return ptr_start[i]; }
    T& back() const { return ptr_end[-1]; }
    T& front() const { return *ptr_start; }
};
constexpr uint64_t OBSERVABLE_BIT = uint64_t{1} << 63;
constexpr uint64_t SEPARATOR_SYGIL = UINT64_MAX;
struct DemTarget {
    uint64_t data;
    static DemTarget observable_id(uint64_t id) { return {OBSERVABLE_BIT | id}; }
    static DemTarget relative_detector_id(uint64_t id) { return {id}; }
    static DemTarget separator() { return {SEPARATOR_SYGIL}; }
    uint64_t raw_id() const { return data & ~OBSERVABLE_BIT; }
    uint64_t val() const { if (data == SEPARATOR_SYGIL) throw std::invalid_argument("Separator doesn't have an integer value."); return raw_id(); }
    bool is_observable_id() const { return data != SEPARATOR_SYGIL && (data & OBSERVABLE_BIT); }
    bool is_separator() const { return data == SEPARATOR_SYGIL; }
    bool is_relative_detector_id() const { return data != SEPARATOR_SYGIL && !(data & OBSERVABLE_BIT); }
};
struct DemInstruction {
    SpanRef<const double> arg_data;
    SpanRef<const DemTarget> target_data;
};
struct DetectorErrorModel {
    struct Owned { std::vector<double> args; std::vector<DemTarget> targets; };
    std::vector<Owned> owned;
    uint64_t num_detectors = 0, num_observables = 0;
    DetectorErrorModel() {}
    // parsing is Stim's: a text or file stands for the model that the harness has put here
    static inline DetectorErrorModel* source = nullptr;
    explicit DetectorErrorModel(const char*) { if (source) *this = *source; }
    static DetectorErrorModel from_file(FILE*) { DetectorErrorModel m; if (source) m = *source; return m; }
    void append_error(double p, std::vector<DemTarget> targets) { owned.push_back({{p}, std::move(targets)}); }
    uint64_t count_detectors() const { return num_detectors; }
    uint64_t count_observables() const { return num_observables; }
    template <typename CB>
    void iter_flatten_error_instructions(const CB& callback) const {
        for (auto& o : owned) {
            DemInstruction i{{o.args.data(), o.args.data() + o.args.size()}, {o.targets.data(), o.targets.data() + o.targets.size()}};
            callback(i);
        }
    }
};
struct Circuit {
    static Circuit from_file(FILE*) { return Circuit(""); }
    explicit Circuit(const char* = "") {}
};
struct ErrorAnalyzer {
    static DetectorErrorModel circuit_to_detector_error_model(const Circuit&, bool, bool, bool, double, bool, bool) { return DetectorErrorModel(""); }
};

// ---- command line and shot files: arguments and shots are those the harness has put into `cli`
constexpr size_t MAX_BITWORD_WIDTH = 64;
enum SampleFormat { SAMPLE_FORMAT_01, SAMPLE_FORMAT_B8 };
struct FileFormatData { const char* name; SampleFormat id; };
struct SparseShot {
    std::vector<uint64_t> hits;
    std::vector<uint8_t> obs_mask;
    void clear() { hits.clear(); obs_mask.clear(); }
    uint64_t obs_mask_as_u64() const { uint64_t r = 0; for (size_t i = 0; i < obs_mask.size() && i < 64; i++) if (obs_mask[i]) r |= (uint64_t)1 << i; return r; }
};
struct Cli {
    std::vector<std::vector<uint8_t>> dets, obs;       // one row per shot
    bool append_obs = false, correlations = false, time = false, separate_obs = false;
    size_t obs_shots = SIZE_MAX;                       // shots present in the separate observables file
    std::vector<std::vector<uint8_t>> written;         // rows written by the prediction writer
    std::vector<size_t> printed;                       // numbers printed to the statistics file
    std::vector<uint8_t> row;
};
inline Cli cli;
inline FILE* cli_file(int k) { static char files[8]; return (FILE*)&files[k]; }
inline void check_for_unknown_arguments(const std::vector<const char*>&, const std::vector<const char*>&, const char*, int, const char**) {}
inline FILE* find_open_file_argument(const char* name, FILE* def, const char*, int, const char**) {
    if (!strcmp(name, "--obs_in") && !cli.separate_obs) return def;
    return cli_file(!strcmp(name, "--in") ? 0 : !strcmp(name, "--out") ? 1 : !strcmp(name, "--dem") ? 2 : 3);
}
inline bool find_bool_argument(const char* name, int, const char**) {
    return !strcmp(name, "--in_includes_appended_observables") ? cli.append_obs : !strcmp(name, "--enable_correlations") ? cli.correlations : !strcmp(name, "--time") ? cli.time : false;
}
inline int format_name_to_enum_map() { return 0; }
inline FileFormatData find_enum_argument(const char*, const char*, int, int, const char**) { return {"01", SAMPLE_FORMAT_01}; }
template <size_t W> struct MeasureRecordReader {
    size_t num_dets, num_obs, next = 0; bool separate;
    static std::unique_ptr<MeasureRecordReader> make(FILE* f, SampleFormat, size_t, size_t num_dets, size_t num_obs) {
        std::unique_ptr<MeasureRecordReader> r(new MeasureRecordReader());
        r->num_dets = num_dets; r->num_obs = num_obs; r->separate = f == cli_file(3);
        return r;
    }
    bool start_and_read_entire_record(SparseShot& s) {
        if (next >= cli.dets.size() || (separate && next >= cli.obs_shots)) return false;
        for (size_t i = 0; i < num_dets; i++) if (cli.dets[next][i]) s.hits.push_back(i);
        if (num_obs) s.obs_mask = cli.obs[next];
        next++;
        return true;
    }
};
struct MeasureRecordWriter {
    static std::unique_ptr<MeasureRecordWriter> make(FILE*, SampleFormat) { return std::unique_ptr<MeasureRecordWriter>(new MeasureRecordWriter()); }
    void begin_result_type(char) {}
    void write_bit(bool b) { cli.row.push_back(b); }
    void write_end() { cli.written.push_back(cli.row); cli.row.clear(); }
};
template <typename... A> int cli_print(FILE*, const char*, A... a) { (cli.printed.push_back((size_t)a), ...); return 0; }
}  // namespace stim
