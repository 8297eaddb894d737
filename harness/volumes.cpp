// Volumes, centroids and the generated plane and box meshes.
#include "geo.hpp"
#include "edyn/math/shape_volume.hpp"
#include "edyn/shapes/box_shape.hpp"
#include "edyn/shapes/capsule_shape.hpp"
#include "edyn/shapes/compound_shape.hpp"
#include "edyn/shapes/cylinder_shape.hpp"
#include "edyn/shapes/polyhedron_shape.hpp"
#include "edyn/shapes/sphere_shape.hpp"
#include "edyn/shapes/convex_mesh.hpp"
#include "edyn/util/shape_util.hpp"
#include "solids.hpp"
#include <map>
#include <set>
using namespace edyn;
using namespace geo;

VP_SCENARIO(primitives) {
    const std::vector<double> S = {0.01, 0.25, 0.5, 1, 1.75, 3, 20};
    for (double a : S) for (double b : S) for (double c : S) for (int ax = 0; ax < 3; ++ax) {
        if (!vp::begin()) continue;
        vp::describe("sizes %g %g %g axis %d", a, b, c, ax); vp::nontrivial(a != b && b != c);
        auto A = coordinate_axis(ax); double cyl = PI * a * a * b, sph = 4. / 3 * PI * a * a * a, box = a * b * c; const double T = 1e-5;
        auto rel = [&](double x, double y) { return std::abs(x - y) <= T * y; };
        VP_CHECK(rel(cylinder_volume(scalar(a), scalar(b)), cyl) && rel(sphere_volume(scalar(a)), sph) && rel(box_volume(V({a, b, c})), box), "volume of a cylinder, sphere or box");
        box_shape bs{V({a, b, c})}; capsule_shape cs{scalar(a), scalar(b), A}; cylinder_shape ys{scalar(a), scalar(b), A}; sphere_shape ss{scalar(a)};
        VP_CHECK(rel(shape_volume(bs), 8 * box) && rel(shape_volume(ys), 2 * cyl) && rel(shape_volume(ss), sph) && rel(shape_volume(cs), 2 * cyl + sph), "volume of a shape");
        compound_shape k; VP_CHECK(shape_volume(k) == 0, "volume of nothing");
        auto add = [&](auto sh, D3 p) { compound_shape::shape_node n; n.shape_var = sh; n.position = V(p); n.orientation = orientations(1)[3]; k.nodes.push_back(n); };
        add(bs, {1, 2, 3}); add(cs, {-5, 0, 1}); add(ys, {0, 9, 0}); add(ss, {3, 3, 3});
        VP_CHECK(rel(shape_volume(k), 8 * box + 4 * cyl + 2 * sph), "volume of a compound");
    }
}

// Every start of every face, order of faces, position, scale and orientation.
VP_SCENARIO(polyhedra_moments) {
    for (auto &p : solids()) for (size_t shift = 0; shift < 4; ++shift) for (int rev = 0; rev < 2; ++rev) for (auto &q : orientations(1)) for (D3 pos : {D3{0, 0, 0}, D3{2, -3, 1}, D3{0.5, 0.25, -4}}) for (double sc : {1., 0.25, 3.}) {
        if (!vp::begin()) continue;
        vp::describer() = [&] { return std::string(p.name) + " of " + std::to_string(p.v.size()) + " vertices, shift " + std::to_string(shift) + (rev ? " reversed" : "") + geo::str(q) + geo::str(pos) + " scale " + std::to_string(sc); };
        std::vector<D3> v; for (auto x : p.v) v.push_back(pos + rot(q, x) * sc);
        double vol; D3 cen; moments(p, v, vol, cen); vp::nontrivial(nm(cen) > 0.01);
        convex_mesh m; for (auto x : v) m.vertices.push_back(V(x));
        for (size_t i = 0; i < p.f.size(); ++i) { auto &f = p.f[rev ? p.f.size() - 1 - i : i]; m.faces.push_back(uint32_t(m.indices.size())); m.faces.push_back(uint32_t(f.size())); for (size_t k = 0; k < f.size(); ++k) m.indices.push_back(uint32_t(f[(k + shift) % f.size()])); }
        double ext = 0; for (auto x : v) ext = std::max(ext, nm(x)); double T = 2e-6 * ext * ext * ext * 8 + 1e-5 * vol;
        double got = mesh_volume(m); VP_CHECK(std::abs(got - vol) < T, "volume %g instead of %g", got, vol);
        polyhedron_shape ps; ps.mesh = std::make_shared<convex_mesh>(m); VP_CHECK(double(shape_volume(ps)) == got, "volume of the shape");
        D3 c = mesh_centroid(m.vertices, m.indices, m.faces); VP_CHECK(nm(c - cen) < 1e-4 * (1 + ext) + 40 * T * ext / vol, "centroid %s instead of %s", geo::str(c).c_str(), geo::str(cen).c_str());
    }
}

VP_SCENARIO(box_mesh) {
    const std::vector<double> S = {0.01, 0.25, 0.5, 1, 3, 20};
    for (double a : S) for (double b : S) for (double c : S) {
        if (!vp::begin()) continue;
        vp::describe("half extents %g %g %g", a, b, c); vp::nontrivial(a != b && b != c);
        convex_mesh m; make_box_mesh(V({a, b, c}), m.vertices, m.indices, m.faces);
        VP_CHECK(m.vertices.size() == 8 && m.indices.size() == 24 && m.faces.size() == 12, "%zu vertices, %zu indices, %zu faces", m.vertices.size(), m.indices.size(), m.faces.size() / 2);
        std::set<int> corners; for (auto &v : m.vertices) { VP_CHECK(std::abs(v.x) == scalar(a) && std::abs(v.y) == scalar(b) && std::abs(v.z) == scalar(c), "a vertex off the corners"); corners.insert((v.x > 0) | (v.y > 0) << 1 | (v.z > 0) << 2); }
        VP_CHECK(corners.size() == 8, "only %zu corners", corners.size());
        std::set<int> sides; size_t at = 0;
        for (size_t f = 0; f < 6; ++f) {
            VP_CHECK(m.faces[2 * f] == at && m.faces[2 * f + 1] == 4, "face %zu", f); at += 4;
            D3 p[4]; for (size_t k = 0; k < 4; ++k) { VP_CHECK(m.indices[m.faces[2 * f] + k] < 8, "index out of range"); p[k] = m.vertices[m.indices[m.faces[2 * f] + k]]; }
            int axis = -1; for (int k = 0; k < 3; ++k) if (p[0][k] == p[1][k] && p[1][k] == p[2][k] && p[2][k] == p[3][k]) axis = k;
            VP_CHECK(axis >= 0, "face %zu is not a side of the box", f); sides.insert(axis * 2 + (p[0][axis] > 0));
            for (int k = 0; k < 4; ++k) VP_CHECK(dt(cr(p[(k + 1) % 4] - p[k], p[(k + 2) % 4] - p[(k + 1) % 4]), p[k]) > 0, "face %zu is not counter-clockwise", f);
        }
        VP_CHECK(sides.size() == 6, "only %zu sides", sides.size());
        VP_CHECK(std::abs(mesh_volume(m) - 8 * a * b * c) < 1e-5 * 8 * a * b * c, "volume");
    }
}

VP_SCENARIO(plane_mesh) {
    for (size_t nx = 2; nx <= 9; ++nx) for (size_t nz = 2; nz <= 9; ++nz) for (double ex : {1., 5., 12.}) for (double ez : {2., 0.5, 30.}) for (int wide = 0; wide < 2; ++wide) {
        if (!vp::begin()) continue;
        vp::describe("%zu x %zu vertices, extents %g x %g", nx, nz, ex, ez); vp::nontrivial(nx != nz);
        std::vector<vector3> v; std::vector<uint32_t> ix; std::vector<uint16_t> ix16;
        if (wide) { make_plane_mesh(scalar(ex), scalar(ez), nx, nz, v, ix16); ix.assign(ix16.begin(), ix16.end()); } else make_plane_mesh(scalar(ex), scalar(ez), nx, nz, v, ix);
        VP_CHECK(v.size() == nx * nz && ix.size() == 6 * (nx - 1) * (nz - 1), "%zu vertices, %zu indices", v.size(), ix.size());
        double dx = ex / double(nx - 1), dz = ez / double(nz - 1); std::set<std::pair<long, long>> pts;
        for (auto &p : v) { double i = (p.x + ex / 2) / dx, j = (p.z + ez / 2) / dz; VP_CHECK(p.y == 0 && std::abs(i - std::lround(i)) < 1e-4 && std::abs(j - std::lround(j)) < 1e-4 && i > -0.1 && i < double(nx) - 0.9 && j > -0.1 && j < double(nz) - 0.9, "a vertex off the grid"); pts.insert({std::lround(i), std::lround(j)}); }
        VP_CHECK(pts.size() == nx * nz, "coincident vertices");
        // Every half cell is covered exactly once, from above.
        std::map<std::pair<long, long>, double> area; double total = 0; std::map<std::pair<uint32_t, uint32_t>, int> edge;
        for (size_t t = 0; t < ix.size(); t += 3) {
            for (int k = 0; k < 3; ++k) VP_CHECK(ix[t + k] < v.size(), "index out of range");
            D3 a = v[ix[t]], b = v[ix[t + 1]], c = v[ix[t + 2]], n = cr(b - a, c - a); VP_CHECK(n.y > 0, "triangle %zu faces down", t / 3);
            D3 m = (a + b + c) / 3.; auto cell = std::make_pair(long(std::floor((m.x + ex / 2) / dx)), long(std::floor((m.z + ez / 2) / dz))); area[cell] += n.y / 2; total += n.y / 2;
            for (int k = 0; k < 3; ++k) VP_CHECK(++edge[std::make_pair(ix[t + k], ix[t + (k + 1) % 3])] == 1, "an edge is used twice in the same direction");
        }
        VP_CHECK(area.size() == (nx - 1) * (nz - 1) && near(total, ex * ez, 1e-5), "the triangles do not cover the plane"); for (auto &kv : area) VP_CHECK(near(kv.second, dx * dz, 1e-4), "a cell is not covered once");
    }
}
