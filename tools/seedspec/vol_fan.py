ID = "vol_fan"
PROPERTY = "P29"
NEEDS = "a convex mesh that has a face with more than five vertices"
BREAKS = "the volume of the mesh leaves out part of its large faces"
EDITS = [("src/edyn/math/shape_volume.cpp", "        for (size_t j = 1; j < size_t(count - 1); ++j) {", "        for (size_t j = 1; j < std::min(size_t(count - 1), size_t(4)); ++j) {")]
DEMO = r'''
#include "edyn/math/shape_volume.hpp"
#include "edyn/shapes/convex_mesh.hpp"
#include <cmath>
#include <cstdio>
int main() {
    using namespace edyn;
    const int n = 8;
    convex_mesh m;
    for (int k = 0; k < 2; ++k) for (int i = 0; i < n; ++i)
        m.vertices.push_back({scalar(std::cos(6.283185307179586 * i / n)), scalar(k ? 1 : -1), scalar(std::sin(6.283185307179586 * i / n))});
    auto face = [&](std::vector<uint32_t> f) { m.faces.push_back(m.indices.size()); m.faces.push_back(f.size()); m.indices.insert(m.indices.end(), f.begin(), f.end()); };
    std::vector<uint32_t> top, bot;
    for (int i = 0; i < n; ++i) { bot.push_back(i); top.push_back(n + n - 1 - i); }
    face(bot); face(top);
    for (uint32_t i = 0; i < n; ++i) { uint32_t j = (i + 1) % n; face({i, n + i, n + j, j}); }
    auto v = std::abs(mesh_volume(m));
    auto e = 2 * 0.5 * n * std::sin(6.283185307179586 / n);
    printf("%f expected %f\n", double(v), e);
    return std::abs(v - e) < 1e-3 ? 0 : 1;
}
'''
