// Minimal stand-in for the parts of Stim's interface that PyMatching's driver sources use (Stim is not available offline).
// Only data access is modelled; the semantics of these accessors follow Stim's documented behaviour.
#pragma once
#include <algorithm>
#include <array>
#include <cassert>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <unordered_map>
#include <utility>
#include <vector>
namespace stim {
template <typename T>
struct SpanRef {
    T* ptr_start; T* ptr_end;
    T* begin() const { return ptr_start; }
    T* end() const { return ptr_end; }
    size_t size() const { return ptr_end - ptr_start; }
    bool empty() const { return ptr_start == ptr_end; }
    T& operator[](size_t i) const { return ptr_start[i]; }
    T& back() const { return ptr_end[-1]; }
    T& front() const { return *ptr_start; }
};
constexpr uint64_t OBSERVABLE_BIT = uint64_t{1} << 63;
constexpr uint64_t SEPARATOR_SYGIL = UINT64_MAX;
struct DemTarget {
    uint64_t data;
    static DemTarget observable_id(uint64_t id) { return {OBSERVABLE_BIT | id}; }
    static DemTarget relative_detector_id(uint64_t id) { return {id}; }
    static DemTarget separator() { return {SEPARATOR_SYGIL}; }
    uint64_t raw_id() const { return data & ~OBSERVABLE_BIT; }
    uint64_t val() const { if (data == SEPARATOR_SYGIL) throw std::invalid_argument("Separator doesn't have an integer value."); return raw_id(); }
    bool is_observable_id() const { return data != SEPARATOR_SYGIL && (data & OBSERVABLE_BIT); }
    bool is_separator() const { return data == SEPARATOR_SYGIL; }
    bool is_relative_detector_id() const { return data != SEPARATOR_SYGIL && !(data & OBSERVABLE_BIT); }
};
struct DemInstruction {
    SpanRef<const double> arg_data;
    SpanRef<const DemTarget> target_data;
};
struct DetectorErrorModel {
    struct Owned { std::vector<double> args; std::vector<DemTarget> targets; };
    std::vector<Owned> owned;
    uint64_t num_detectors = 0, num_observables = 0;
    DetectorErrorModel() {}
    void append_error(double p, std::vector<DemTarget> targets) { owned.push_back({{p}, std::move(targets)}); }
    uint64_t count_detectors() const { return num_detectors; }
    uint64_t count_observables() const { return num_observables; }
    template <typename CB>
    void iter_flatten_error_instructions(const CB& callback) const {
        for (auto& o : owned) {
            DemInstruction i{{o.args.data(), o.args.data() + o.args.size()}, {o.targets.data(), o.targets.data() + o.targets.size()}};
            callback(i);
        }
    }
};
}  // namespace stim
