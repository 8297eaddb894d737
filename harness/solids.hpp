// Convex polyhedra by their faces, with exact moments.
#ifndef H_SOLIDS_HPP
#define H_SOLIDS_HPP
#include "geo.hpp"
namespace geo {
struct solid { const char *name; std::vector<D3> v; std::vector<std::vector<int>> f; };
inline std::vector<solid> solids() {
    std::vector<solid> r;
    r.push_back({"tetrahedron", {{1, 1, 1}, {-1, -1, 1}, {-1, 1, -1}, {1, -1, -1}}, {{0, 1, 2}, {0, 3, 1}, {0, 2, 3}, {1, 3, 2}}});
    r.push_back({"corner", {{0, 0, 0}, {2, 0, 0}, {0, 1, 0}, {0, 0, 0.5}}, {{0, 2, 1}, {0, 1, 3}, {0, 3, 2}, {1, 2, 3}}});
    r.push_back({"octahedron", {{1, 0, 0}, {-1, 0, 0}, {0, 2, 0}, {0, -2, 0}, {0, 0, 0.5}, {0, 0, -0.5}}, {{0, 2, 4}, {2, 1, 4}, {1, 3, 4}, {3, 0, 4}, {2, 0, 5}, {1, 2, 5}, {3, 1, 5}, {0, 3, 5}}});
    solid box{"box", {}, {{0, 1, 3, 2}, {4, 6, 7, 5}, {0, 4, 5, 1}, {2, 3, 7, 6}, {0, 2, 6, 4}, {1, 5, 7, 3}}};
    for (int i = 0; i < 8; ++i) box.v.push_back({i & 4 ? 1. : -1., i & 2 ? 0.5 : -0.5, i & 1 ? 2. : -2.});
    r.push_back(box);
    solid wedge{"wedge", {{0, 0, 0}, {2, 0, 0}, {0, 1, 0}, {0, 0, 3}, {2, 0, 3}, {0, 1, 3}}, {{0, 2, 1}, {3, 4, 5}, {0, 1, 4, 3}, {1, 2, 5, 4}, {2, 0, 3, 5}}};
    r.push_back(wedge);
    for (int n : {3, 5, 8}) {
        solid p{"prism", {}, {}}; std::vector<int> top, bot;
        for (int i = 0; i < n; ++i) { double a = 2 * PI * i / n; p.v.push_back({std::cos(a), -0.7, std::sin(a)}); p.v.push_back({std::cos(a), 0.7, std::sin(a)}); bot.push_back(2 * i); top.push_back(2 * (n - 1 - i) + 1); }
        p.f = {top, bot}; for (int i = 0; i < n; ++i) { int j = (i + 1) % n; p.f.push_back({2 * i, 2 * i + 1, 2 * j + 1, 2 * j}); }
        r.push_back(p);
    }
    for (int n : {4, 7}) {
        solid p{"bipyramid", {{0, 3, 0.2}, {0, -1, 0}}, {}};
        for (int i = 0; i < n; ++i) { double a = 2 * PI * i / n; p.v.push_back({2 * std::cos(a), 0, std::sin(a)}); }
        for (int i = 0; i < n; ++i) { int a = 2 + i, b = 2 + (i + 1) % n; p.f.push_back({a, 0, b}); p.f.push_back({b, 1, a}); }
        r.push_back(p);
    }
    // Counter-clockwise as seen from outside.
    for (auto &s : r) {
        D3 o; for (auto x : s.v) o = o + x / double(s.v.size());
        for (auto &f : s.f) if (dt(cr(s.v[f[1]] - s.v[f[0]], s.v[f[2]] - s.v[f[1]]), s.v[f[0]] - o) < 0) std::reverse(f.begin(), f.end());
    }
    return r;
}
// Volume and centroid by cones from an inner point.
inline void moments(const solid &s, const std::vector<D3> &v, double &vol, D3 &cen) {
    D3 o; for (auto x : v) o = o + x / double(v.size());
    vol = 0; D3 acc;
    for (auto &f : s.f) for (size_t k = 1; k + 1 < f.size(); ++k) {
        D3 a = v[f[0]] - o, b = v[f[k]] - o, c = v[f[k + 1]] - o; double t = dt(a, cr(b, c)) / 6;
        vol += t; acc = acc + (a + b + c) * (t / 4);
    }
    cen = o + acc / vol;
}
}
#endif
