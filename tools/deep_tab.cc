// Tables for the deep instances of the decoder (harness/mined3.h): for each graph and set of detection events, and for each edge, the minimum weight of a
// correction that does not use the edge (A0) and of one that does, without the weight of the edge itself (A1). The minimum weight is then min(A0, A1 + w)
// for every weight w >= 0 of that edge. Input (stdin; gzip -dc tools/deep_instances.txt.gz), one instance a line: n E (u v w)*E k d1..dk [| ...]; u v: detectors, v = -1: boundary.
//   g++ -O2 -o deep_tab tools/deep_tab.cc && ./deep_tab <instances >harness/mined3.h
#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
static const int INF = 1 << 28;
struct E {
    int u, v, w;
};
static int solve(int n, const std::vector<E>& es, int skip, uint32_t s) {
    int m = n + 1;
    std::vector<int> d(m * m, INF);
    for (int i = 0; i < m; i++)
        d[i * m + i] = 0;
    for (int i = 0; i < (int)es.size(); i++)
        if (i != skip) {
            int u = es[i].u, v = es[i].v < 0 ? n : es[i].v;
            d[u * m + v] = d[v * m + u] = std::min(d[u * m + v], es[i].w);
        }
    for (int x = 0; x < m; x++)
        for (int a = 0; a < m; a++)
            for (int b = 0; b < m; b++)
                d[a * m + b] = std::min(d[a * m + b], d[a * m + x] + d[x * m + b]);
    std::vector<int> t;
    for (int i = 0; i < n; i++)
        if (s >> i & 1)
            t.push_back(i);
    int k = t.size();
    std::vector<int> f(1u << k, INF);
    f[0] = 0;
    for (uint32_t q = 1; q < 1u << k; q++) {
        int i = __builtin_ctz(q);
        uint32_t r = q & (q - 1);
        int best = std::min(INF, f[r] + d[t[i] * m + n]);
        for (uint32_t z = r; z; z &= z - 1) {
            int j = __builtin_ctz(z);
            best = std::min(best, f[r & ~(1u << j)] + d[t[i] * m + t[j]]);
        }
        f[q] = best;
    }
    return f[(1u << k) - 1];
}
int main() {
    puts("// Generated by tools/deep_tab.cc: n, E, number of detection events, (u, v, w, A0, A1) of each edge, detection events; -1: boundary or no correction");
    puts("static const short DEEP[] = {");
    std::string line;
    std::vector<size_t> at;
    size_t off = 0;
    while (std::getline(std::cin, line)) {
        std::istringstream in(line);
        int n, m, k;
        if (!(in >> n >> m))
            continue;
        std::vector<E> es(m);
        for (auto& e : es)
            in >> e.u >> e.v >> e.w;
        in >> k;
        std::vector<int> d(k);
        uint32_t s = 0;
        for (auto& x : d) {
            in >> x;
            s |= 1u << x;
        }
        at.push_back(off);
        printf("%d,%d,%d", n, m, k);
        for (int i = 0; i < m; i++) {
            int a0 = solve(n, es, i, s), a1 = solve(n, es, i, s ^ (1u << es[i].u) ^ (es[i].v < 0 ? 0 : 1u << es[i].v));
            printf(",%d,%d,%d,%d,%d", es[i].u, es[i].v, es[i].w, a0 >= INF ? -1 : a0, a1 >= INF ? -1 : a1);
        }
        for (int x : d)
            printf(",%d", x);
        puts(",");
        off += 3 + 5 * m + k;
    }
    puts("};\nstatic const int DEEP_AT[] = {");
    for (size_t i = 0; i < at.size(); i++)
        printf("%zu,%s", at[i], i % 16 == 15 ? "\n" : "");
    puts("};");
}
