ID = "tri_vertex_edge"
PROPERTY = "P32"
NEEDS = "a vertex contact of a mesh triangle whose previous edge is convex and whose axis leaves the Voronoi region across that edge"
BREAKS = "the contact axis is clipped against the edge opposite to the vertex instead of the one that meets it, so it can point to a wrong direction"
EDITS = [("src/edyn/math/triangle.cpp", "        auto edge_idx1 = (tri_feature_index + 2) % 3;", "        auto edge_idx1 = (tri_feature_index + 1) % 3;")]
DEMO = r'''
#include "edyn/shapes/triangle_mesh.hpp"
#include "edyn/math/triangle.hpp"
#include <cstdio>
int main() {
    using namespace edyn;
    // A tetrahedron: all of its edges are convex. Every axis clipped to a vertex of a face has to stay on the
    // inner side of the two edges that meet there (with respect to the adjacent faces) or be a face normal.
    std::vector<vector3> v{{1, 1, 1}, {1, -1, -1}, {-1, 1, -1}, {-1, -1, 1}};
    std::vector<uint32_t> idx{0, 1, 2, 0, 3, 1, 0, 2, 3, 1, 3, 2};
    triangle_mesh m;
    m.insert_vertices(v.begin(), v.end());
    m.insert_indices(idx.begin(), idx.end());
    m.initialize();
    for (size_t t = 0; t < 4; ++t) {
        auto tv = m.get_triangle_vertices(t);
        auto n = m.get_triangle_normal(t);
        for (size_t k = 0; k < 3; ++k)
            for (int x = -2; x <= 2; ++x) for (int y = -2; y <= 2; ++y) for (int z = -2; z <= 2; ++z) {
                if (!x && !y && !z) continue;
                auto axis = normalize(vector3{scalar(x), scalar(y), scalar(z)});
                auto r = clip_triangle_separating_axis(axis, m, t, tv, n, triangle_feature::vertex, k);
                // Only faces incident to the vertex may supply a normal.
                auto opposite = m.get_adjacent_face_normal(t, (k + 1) % 3);
                if (distance_sqr(r, opposite) < 1e-6 && distance_sqr(axis, opposite) > 1e-6) {
                    printf("face %zu vertex %zu: clipped to the face across the opposite edge\n", t, k);
                    return 1;
                }
            }
    }
    return 0;
}
'''
