ID = "hull_split"
PROPERTY = "P24"
NEEDS = "a point set whose hull needs a second split beyond an edge that was itself split on its far side"
BREAKS = "the computed hull leaves points outside"
EDITS = [("src/edyn/util/shape_util.cpp", """        num_splits += split_hull_edge(points, hull, i1, i2, tolerance);

        return 1 + num_splits;""", """        split_hull_edge(points, hull, i1, i2, tolerance);

        return 1 + num_splits;""")]
DEMO = r'''
#include "edyn/util/shape_util.hpp"
#include <cmath>
#include <cstdio>
int main() {
    using namespace edyn;
    for (int n = 4; n < 24; ++n) {
        for (int rot = 0; rot < 12; ++rot) {
            std::vector<vector2> p;
            for (int i = 0; i < n; ++i) { auto a = 6.2831853 * i / n + rot * 0.1; p.push_back({scalar(10 * std::cos(a)), scalar(10 * std::sin(a))}); }
            auto h = calculate_convex_hull(p, scalar(0.001));
            for (size_t k = 0; k < h.size(); ++k) {
                auto v0 = p[h[k]], e = p[h[(k + 1) % h.size()]] - v0;
                auto d = -orthogonal(e);
                for (auto &q : p) if (dot(q - v0, d) > 0.01) { printf("n=%d: point outside\n", n); return 1; }
            }
        }
    }
    return 0;
}
'''
