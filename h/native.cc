// Native side of the harness interface: replays recorded inputs against the real build.
// usage: prog ENTRY FILE   (FILE: "in name value" / "out name value" lines; outputs are compared)
#include "sx.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <dlfcn.h>
#include <sstream>
static std::map<std::string, int64_t> in;
static std::map<std::string, int> cnt;
static std::vector<std::pair<std::string, int64_t>> expect, got;
static int64_t get(const char* name, int64_t lo, int64_t hi) {
    int k = cnt[name]++;
    std::string n = k ? std::string(name) + "#" + std::to_string(k) : name;
    auto it = in.find(n);
    int64_t v = it == in.end() ? lo : it->second;
    return v;
}
extern "C" {
int64_t sx_int(const char* n, int64_t lo, int64_t hi) { int64_t v = get(n, lo, hi); if (v < lo || v > hi) { printf("ASSUME input %s out of range\n", n); fflush(stdout); _Exit(3); } return v; }
int64_t sx_choose(const char* n, int64_t lo, int64_t hi) { return sx_int(n, lo, hi); }
double sx_double(const char* n, double lo, double hi) { int64_t b; memcpy(&b, &lo, 8); int64_t v = get(n, b, b); double d; memcpy(&d, &v, 8); return d; }
void sx_assume(int c) { if (!c) { printf("ASSUME violated\n"); fflush(stdout); _Exit(3); } }
void sx_assert(int c, const char* m) { if (!c) { printf("SXFAIL %s\n", m); fflush(stdout); _Exit(42); } }
void sx_fail(const char* m) { sx_assert(0, m); }
void sx_out(const char* n, int64_t v) { got.push_back({n, v}); }
void sx_reach(const char*) {}
int64_t sx_concretize(int64_t v) { return v; }
int64_t sx_ite(int c, int64_t a, int64_t b) { return c ? a : b; }
int sx_symbolic_run() { return 0; }
uint64_t sx_live_allocs() { return 0; }
size_t __sanitizer_get_current_allocated_bytes();
uint64_t sx_live_bytes() { return __sanitizer_get_current_allocated_bytes(); }
}
int main(int argc, char** argv) {
    // several cases may be run in one process only by forking outside; here: one case per process
    std::ifstream f(argv[2]);
    std::string line;
    while (std::getline(f, line)) {
        std::istringstream is(line); std::string k, n; int64_t v; is >> k;
        if (k == "in") { is >> n >> v; in[n] = v; }
        else if (k == "out") { is >> n >> v; expect.push_back({n, v}); }
    }
    void (*fn)() = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
    if (!fn) { printf("no entry\n"); return 4; }
    fn();
    if (argc > 3 && !strcmp(argv[3], "print")) for (auto& g : got) printf("out %s %lld\n", g.first.c_str(), (long long)g.second);
    if (!expect.empty() || argc <= 3) {
        if (expect != got) {
            printf("MISMATCH\n");
            for (size_t i = 0; i < std::max(expect.size(), got.size()); i++) {
                auto e = i < expect.size() ? expect[i].first + "=" + std::to_string(expect[i].second) : "-";
                auto g = i < got.size() ? got[i].first + "=" + std::to_string(got[i].second) : "-";
                if (e != g) printf("  symbolic %s native %s\n", e.c_str(), g.c_str());
            }
            return 5;
        }
    }
    printf("OK\n");
    return 0;
}
