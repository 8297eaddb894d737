// The static bounding volume tree: every multiset of boxes of an alphabet, every query.
#include "geo.hpp"
#include "edyn/collision/static_tree.hpp"
#include <map>
using namespace edyn;
using namespace geo;

namespace {
struct box { D3 lo, hi; };
AABB A(box b) { return {V(b.lo), V(b.hi)}; }
std::string str(const std::vector<box> &bs) { std::string r; for (auto &b : bs) r += "[" + geo::str(b.lo) + geo::str(b.hi) + "]"; return r; }
std::vector<box> alphabet() {
    std::vector<box> r = {{{0, 0, 0}, {1, 1, 1}}, {{0, 0, 0}, {4, 1, 1}}, {{2, 0, 0}, {3, 1, 1}}, {{2.5, 0.5, -3}, {3.5, 2, 1}}, {{-1, -1, -1}, {-1, -1, -1}}, {{0, 3, 0}, {0, 5, 2}}, {{-4, -4, -4}, {4, 4, 4}}, {{1, 1, 1}, {1.5, 1.25, 2}}};
    return r;
}
bool overlap(box a, box b) { for (int k = 0; k < 3; ++k) if (a.hi[k] < b.lo[k] || b.hi[k] < a.lo[k]) return false; return true; }
bool ray_hits(D3 p, D3 q, box b, bool &unsure) {
    double t0 = 0, t1 = 1; unsure = false;
    for (int k = 0; k < 3; ++k) {
        double d = q[k] - p[k];
        if (d == 0) { if (p[k] < b.lo[k] || p[k] > b.hi[k]) return false; continue; }
        double u = (b.lo[k] - p[k]) / d, v = (b.hi[k] - p[k]) / d; if (u > v) std::swap(u, v);
        t0 = std::max(t0, u); t1 = std::min(t1, v);
    }
    unsure = std::abs(t1 - t0) < 1e-4; return t0 <= t1;
}
void run(const std::vector<box> &bs, uint32_t per_leaf) {
    std::vector<AABB> as; for (auto &b : bs) as.push_back(A(b));
    std::map<uint32_t, std::vector<uint32_t>> leaves; uint32_t next = 0;
    auto report = [&](static_tree::tree_node &n, auto b, auto e) { n.id = next; leaves[next++] = {b, e}; VP_CHECK(n.leaf(), "the node reported is not a leaf"); };
    static_tree t; VP_CHECK(t.empty(), "a new tree is not empty");
    t.build(as.begin(), as.end(), report, per_leaf);
    VP_CHECK(!t.empty(), "the tree is empty after it was built");
    std::vector<int> where(bs.size(), -1);
    for (auto &[id, ids] : leaves) { VP_CHECK(!ids.empty() && ids.size() <= per_leaf, "a leaf of %zu boxes", ids.size()); for (auto i : ids) { VP_CHECK(i < bs.size() && where[i] < 0, "box %u is in two leaves", i); where[i] = int(id); } }
    for (size_t i = 0; i < bs.size(); ++i) VP_CHECK(where[i] >= 0, "box %zu is in no leaf", i);
    // The structure: every node encloses exactly what is below it.
    std::vector<uint32_t> stack = {0}; size_t nodes = 0, nleaves = 0; std::vector<uint32_t> order; std::map<uint32_t, std::pair<uint32_t, uint32_t>> kids;
    while (!stack.empty()) {
        auto i = stack.back(); stack.pop_back(); auto &n = t.get_node(i); VP_CHECK(++nodes < 4 * bs.size() + 4, "the tree has a cycle");
        order.push_back(i);
        if (n.leaf()) ++nleaves; else { kids[i] = {n.child1, n.child2}; stack.push_back(n.child1); stack.push_back(n.child2); }
    }
    VP_CHECK(nleaves == leaves.size() && nodes == 2 * nleaves - 1, "%zu nodes, %zu leaves, %zu reported", nodes, nleaves, leaves.size());
    std::map<uint32_t, box> enc;
    for (size_t k = order.size(); k-- > 0;) {
        auto i = order[k]; auto &n = t.get_node(i); box e{{1e9, 1e9, 1e9}, {-1e9, -1e9, -1e9}};
        auto add = [&](box b) { for (int c = 0; c < 3; ++c) { e.lo[c] = std::min(e.lo[c], b.lo[c]); e.hi[c] = std::max(e.hi[c], b.hi[c]); } };
        if (n.leaf()) for (auto j : leaves[n.id]) add(bs[j]); else { add(enc[kids[i].first]); add(enc[kids[i].second]); }
        enc[i] = e; VP_CHECK(near(D3(n.aabb.min), e.lo, 1e-7) && near(D3(n.aabb.max), e.hi, 1e-7), "a node does not bound its content");
    }
    VP_CHECK(near(D3(t.root_aabb().min), enc[0].lo, 1e-7) && near(D3(t.root_aabb().max), enc[0].hi, 1e-7), "bounds of the root");
    vp::nontrivial(bs.size() > 1);
    auto queries = alphabet(); queries.push_back({{1, 1, 1}, {1, 1, 1}}); queries.push_back({{10, 10, 10}, {11, 11, 11}}); queries.push_back({{3.2, 0.2, -5}, {3.3, 0.3, 5}});
    for (auto &q : queries) {
        std::map<uint32_t, int> seen; t.query(A(q), [&](uint32_t node) { VP_CHECK(t.get_node(node).leaf(), "the query visits an inner node"); ++seen[t.get_node(node).id]; });
        for (auto &[id, ids] : leaves) { bool hit = overlap(q, box{D3(enc[0].lo), D3(enc[0].hi)}); box lb{{1e9, 1e9, 1e9}, {-1e9, -1e9, -1e9}}; for (auto j : ids) for (int c = 0; c < 3; ++c) { lb.lo[c] = std::min(lb.lo[c], bs[j].lo[c]); lb.hi[c] = std::max(lb.hi[c], bs[j].hi[c]); } hit = overlap(q, lb);
            VP_CHECK(seen[id] == (hit ? 1 : 0), "a query visits leaf %u %d times instead of %d", id, seen[id], hit); vp::transitions(1); }
    }
    std::vector<std::pair<D3, D3>> rays; auto L = lattice({-5, 0.5, 5}, {-5, 0.75, 5}, {-5, 0.25}); for (auto &a : L) for (auto &b : L) if (&a < &b) rays.push_back({a, b});
    for (auto &r : rays) {
        std::map<uint32_t, int> seen; t.raycast(V(r.first), V(r.second), [&](uint32_t node) { ++seen[t.get_node(node).id]; });
        for (auto &[id, ids] : leaves) { box lb{{1e9, 1e9, 1e9}, {-1e9, -1e9, -1e9}}; for (auto j : ids) for (int c = 0; c < 3; ++c) { lb.lo[c] = std::min(lb.lo[c], bs[j].lo[c]); lb.hi[c] = std::max(lb.hi[c], bs[j].hi[c]); }
            bool unsure; bool hit = ray_hits(r.first, r.second, lb, unsure); VP_CHECK(seen[id] <= 1, "a ray visits a leaf twice"); if (!unsure || hit) VP_CHECK(seen[id] == hit, "a ray %s leaf %u", hit ? "misses" : "visits", id); }
    }
    // Clearing and building again.
    t.clear(); VP_CHECK(t.empty(), "the tree is not empty after it was cleared");
    size_t again = 0; auto count = [&](static_tree::tree_node &n, auto b, auto e) { n.id = 0; again += size_t(e - b); };
    t.build(as.begin(), as.end(), count, per_leaf); VP_CHECK(again == bs.size() && near(D3(t.root_aabb().max), enc[0].hi, 1e-7), "building again after a clear");
}
}

VP_SCENARIO(all_box_sequences) {
    auto al = alphabet(); int max = vp::thorough() ? 5 : 4;
    for (int n = 1; n <= max; ++n) {
        long total = 1; for (int i = 0; i < n; ++i) total *= long(al.size());
        for (long c = 0; c < total; ++c) for (uint32_t per : {1u, 2u, 3u}) {
            if (!vp::begin()) continue;
            std::vector<box> bs; long k = c; for (int i = 0; i < n; ++i) { bs.push_back(al[size_t(k) % al.size()]); k /= long(al.size()); }
            vp::describer() = [&] { return str(bs) + " per leaf " + std::to_string(per); };
            vp::states(1); run(bs, per);
        }
    }
}
// Larger regular sets: grids, lines, nested and coincident boxes, in several orders.
VP_SCENARIO(large_sets) {
    for (int kind = 0; kind < 6; ++kind) for (int n : {1, 2, 3, 5, 8, 13, 27, 64, 100}) for (int order = 0; order < 4; ++order) for (uint32_t per : {1u, 2u, 7u}) {
        if (!vp::begin()) continue;
        std::vector<box> bs;
        for (int i = 0; i < n; ++i) {
            D3 p; double s = 0.4;
            if (kind == 0) p = {double(i % 4), double(i / 4 % 4), double(i / 16)};
            if (kind == 1) p = {double(i), 0, 0};
            if (kind == 2) { p = {0, 0, 0}; s = 0.1 * (i + 1); }
            if (kind == 3) p = {1, 2, 3};
            if (kind == 4) p = {0, double(i * i) * 0.1, double(i % 3) * 0.01};
            if (kind == 5) { p = {1e4, double(i) * 1e-3, -1e4}; s = 1e-3; }
            bs.push_back({p - D3{s, s, s}, p + D3{s, s, s}});
        }
        for (auto &b : bs) { b.lo = D3(V(b.lo)); b.hi = D3(V(b.hi)); }
        if (order == 1) std::reverse(bs.begin(), bs.end());
        if (order == 2) std::rotate(bs.begin(), bs.begin() + n / 2, bs.end());
        if (order == 3) { std::vector<box> t; for (int i = 0; i < n; i += 2) t.push_back(bs[i]); for (int i = 1; i < n; i += 2) t.push_back(bs[i]); bs = t; }
        vp::describe("set %d of %d boxes, order %d, %u per leaf", kind, n, order, per);
        vp::states(1); run(bs, per);
    }
}
