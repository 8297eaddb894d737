// The dynamic bounding-volume tree against a list of boxes, over all operation sequences.
#include "vp.hpp"
#include <malloc.h>
#include "geo.hpp"
#include "edyn/collision/dynamic_tree.hpp"
#include <entt/entity/entity.hpp>
#include <algorithm>
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace edyn;

namespace {
AABB box(double x, double y, double z, double a, double b, double c) { return {vector3{scalar(x), scalar(y), scalar(z)}, vector3{scalar(x + a), scalar(y + b), scalar(z + c)}}; }

struct item { entt::entity e; AABB given; AABB fat; };
using model = std::map<tree_node_id_t, item>;

bool inside(const AABB &o, const AABB &i) { for (int k = 0; k < 3; ++k) if (i.min[k] < o.min[k] || i.max[k] > o.max[k]) return false; return true; }
// Distance between boxes along the worst axis: negative if they overlap.
double gap(const AABB &a, const AABB &b) { double g = -1e30; for (int k = 0; k < 3; ++k) g = std::max(g, std::max(double(a.min[k]) - b.max[k], double(b.min[k]) - a.max[k])); return g; }
// Segment against a box grown by m on all sides.
bool seg_hits(const vector3 &p, const vector3 &q, const AABB &b, double m) {
    double t0 = 0, t1 = 1;
    for (int k = 0; k < 3; ++k) {
        double d = double(q[k]) - p[k], lo = b.min[k] - m, hi = b.max[k] + m;
        if (d == 0) { if (p[k] < lo || p[k] > hi) return false; continue; }
        double a = (lo - p[k]) / d, c = (hi - p[k]) / d;
        if (a > c) std::swap(a, c);
        t0 = std::max(t0, a); t1 = std::min(t1, c);
    }
    return t0 <= t1;
}
bool same(const AABB &a, const AABB &b) { for (int k = 0; k < 3; ++k) if (a.min[k] != b.min[k] || a.max[k] != b.max[k]) return false; return true; }

struct runner {
    std::vector<AABB> menu;
    std::vector<AABB> queries;
    std::vector<std::pair<vector3, vector3>> rays;
    std::string path;
    unsigned next = 1;
    size_t cap = 16;

    void verify(const dynamic_tree &t, const model &m) {
        vp::states();
        tree_node_id_t root = null_tree_node_id;
        std::set<tree_node_id_t> inner;
        for (auto &kv : m) {
            auto &n = t.get_node(kv.first);
            VP_CHECK(n.leaf(), "node %u of a live entity is no leaf", kv.first);
            VP_CHECK(n.entity == kv.second.e, "node %u holds another entity", kv.first);
            VP_CHECK(same(n.aabb, kv.second.fat), "box of node %u changed without a move", kv.first);
            VP_CHECK(n.height == 0, "leaf %u has height %d", kv.first, n.height);
            auto c = kv.first; auto p = n.parent; size_t steps = 0;
            while (p != null_tree_node_id) {
                auto &pn = t.get_node(p);
                VP_CHECK(!m.count(p), "node %u of an entity is parent of node %u", p, c);
                VP_CHECK((pn.child1 == c) != (pn.child2 == c), "parent %u does not point back to its child %u", p, c);
                VP_CHECK(inside(pn.aabb, t.get_node(c).aabb), "box of node %u does not enclose its child %u", p, c);
                VP_CHECK(pn.height == std::max(t.get_node(pn.child1).height, t.get_node(pn.child2).height) + 1, "node %u has a wrong height", p);
                VP_CHECK(++steps <= m.size(), "the parents of node %u form a cycle", kv.first);
                inner.insert(p);
                c = p; p = t.get_node(p).parent;
            }
            VP_CHECK(root == null_tree_node_id || root == c, "the leaves belong to different trees");
            root = c;
        }
        VP_CHECK(m.empty() || inner.size() == m.size() - 1, "%zu inner nodes for %zu leaves", inner.size(), m.size());

        auto check = [&](const char *what, std::vector<tree_node_id_t> got, auto &&must, auto &&may) {
            std::sort(got.begin(), got.end());
            for (size_t i = 0; i < got.size(); ++i) {
                VP_CHECK(m.count(got[i]), "%s reports node %u, which is no live leaf", what, got[i]);
                VP_CHECK(i == 0 || got[i] != got[i - 1], "%s reports node %u twice", what, got[i]);
                VP_CHECK(may(m.at(got[i])), "%s reports node %u, whose box is not touched", what, got[i]);
            }
            for (auto &kv : m) if (must(kv.second)) VP_CHECK(std::binary_search(got.begin(), got.end(), kv.first), "%s misses node %u", what, kv.first);
        };
        for (auto &q : queries) {
            std::vector<tree_node_id_t> got;
            t.query(q, [&](tree_node_id_t id) { got.push_back(id); });
            check("query", got, [&](const item &i) { return gap(i.fat, q) < -1e-5; }, [&](const item &i) { return gap(i.fat, q) < 1e-5; });
            vp::validated();
        }
        for (auto &r : rays) {
            std::vector<tree_node_id_t> got;
            t.raycast(r.first, r.second, [&](tree_node_id_t id) { got.push_back(id); });
            check("raycast", got, [&](const item &i) { return seg_hits(r.first, r.second, i.fat, -1e-4); }, [&](const item &i) { return seg_hits(r.first, r.second, i.fat, 1e-4); });
            vp::validated();
        }
    }

    tree_node_id_t create(dynamic_tree &t, model &m, const AABB &b) {
        auto e = entt::entity(next++);
        auto id = t.create(b, e);
        VP_CHECK(!m.count(id), "create returned node %u, which is in use", id);
        accept(t, m, id, e, b);
        return id;
    }
    void accept(dynamic_tree &t, model &m, tree_node_id_t id, entt::entity e, const AABB &b) {
        auto fat = t.get_node(id).aabb;
        VP_CHECK(inside(fat, b), "the box kept for node %u does not enclose the entity's box", id);
        for (int k = 0; k < 3; ++k) VP_CHECK(b.min[k] - fat.min[k] <= 1 && fat.max[k] - b.max[k] <= 1, "the box kept for node %u is out of proportion", id);
        m[id] = {e, b, fat};
    }
    void move(dynamic_tree &t, model &m, tree_node_id_t id, const AABB &b) {
        bool in = inside(m[id].fat, b);
        bool moved = t.move(id, b);
        VP_CHECK(moved == !in, "move returns %d for a box that is%s inside the node's", int(moved), in ? "" : " not");
        if (moved) accept(t, m, id, m[id].e, b); else m[id].given = b;
    }

    void explore(const dynamic_tree &t, const model &m, int depth) {
        ++vp::st().progress;
        verify(t, m);
        if (depth == 0) return;
        auto len = path.size();
        auto go = [&](std::string op, auto &&f) {
            vp::transitions();
            path += " " + op;
            dynamic_tree t2 = t; model m2 = m;
            f(t2, m2);
            explore(t2, m2, depth - 1);
            path.resize(len);
        };
        auto S = [](size_t i) { return std::to_string(i); };
        if (m.size() < cap) for (size_t b = 0; b < menu.size(); ++b) go("create" + S(b), [&](dynamic_tree &t2, model &m2) { create(t2, m2, menu[b]); });
        for (auto &kv : m) {
            auto id = kv.first;
            go("destroy@" + S(id), [&](dynamic_tree &t2, model &m2) { t2.destroy(id); m2.erase(id); });
            for (size_t b = 0; b < menu.size(); ++b) go("move@" + S(id) + "->" + S(b), [&](dynamic_tree &t2, model &m2) { move(t2, m2, id, menu[b]); });
            auto g = kv.second.given;
            auto nudge = vector3{scalar(0.05), scalar(-0.05), scalar(0.03)};
            go("nudge@" + S(id), [&](dynamic_tree &t2, model &m2) { move(t2, m2, id, AABB{g.min + nudge, g.max + nudge}); });
        }
        go("clear", [&](dynamic_tree &t2, model &m2) { t2.clear(); m2.clear(); });
    }

    void world(int which) {
        if (which == 0) menu = {box(0, 0, 0, 1, 1, 1), box(1.5, 0, 0, 1, 1, 1), box(4, 0, 0, 1, 1, 1), box(0, 3, 0, 1, 1, 1), box(-1, -1, -1, 6, 5, 3)};
        else menu = {box(0, 0, 0, 1, 1, 1), box(0.25, 0.25, 0, 1, 1, 1), box(-6, 0, 0, 2, 1, 1), box(0, 0, -8, 0, 0, 0), box(0, 0, 7, 1, 4, 1)};
        queries = menu;
        for (auto &b : menu) queries.push_back(AABB{b.max + vector3{0.05, 0.05, 0.05}, b.max + vector3{0.2, 0.2, 0.2}});
        queries.push_back(box(-100, -100, -100, 200, 200, 200));
        queries.push_back(box(50, 50, 50, 1, 1, 1));
        rays = {{{-10, 0.5, 0.5}, {10, 0.5, 0.5}}, {{10, 0.5, 0.5}, {3, 0.5, 0.5}}, {{0.5, 10, 0.5}, {0.5, -10, 0.5}}, {{-7, -1, -9}, {5, 4, 8}}, {{0.5, 0.5, 0.5}, {0.6, 0.6, 0.6}},
                {{-10, 20, 0}, {10, 20, 0}}, {{0.5, 0.5, -9}, {0.5, 0.5, 9}}};
    }
};
}

// Every sequence of operations from the empty tree.
VP_SCENARIO(from_empty) {
    for (int w = 0; w < 2; ++w) for (int first = 0; first < 5; ++first) for (int second = 0; second < 5; ++second) {
        if (!vp::begin()) continue;
        runner r; r.world(w);
        r.path = "world " + std::to_string(w) + ": create" + std::to_string(first) + " create" + std::to_string(second);
        vp::describer() = [&r] { return r.path; };
        dynamic_tree t; model m;
        r.create(t, m, r.menu[first]); r.create(t, m, r.menu[second]);
        r.explore(t, m, vp::thorough() ? 5 : 4);
        vp::describer() = nullptr;
    }
}
// Every sequence of six creations, then every pair of operations.
VP_SCENARIO(creations) {
    const int n = 6;
    int total = 1; for (int i = 0; i < n; ++i) total *= 5;
    for (int w = 0; w < 2; ++w) for (int c = 0; c < total; ++c) {
        if (!vp::begin()) continue;
        runner r; r.world(w);
        r.path = "world " + std::to_string(w) + ":";
        vp::describer() = [&r] { return r.path; };
        dynamic_tree t; model m;
        int k = c;
        for (int i = 0; i < n; ++i, k /= 5) { r.path += " create" + std::to_string(k % 5); r.create(t, m, r.menu[k % 5]); r.verify(t, m); }
        r.explore(t, m, vp::thorough() ? 2 : 1);
        vp::describer() = nullptr;
    }
}
// Long rows, stairs and clusters of boxes built in different orders, every subset pattern of destruction, then every operation.
VP_SCENARIO(rows) {
    for (int kind = 0; kind < 4; ++kind) for (int order = 0; order < 4; ++order) for (int n : {5, 8, 9, 13, 17}) {
        if (!vp::begin()) continue;
        runner r; r.world(0);
        r.menu.resize(3); r.cap = 40;
        r.path = "kind " + std::to_string(kind) + " order " + std::to_string(order) + " n " + std::to_string(n) + ":";
        vp::describer() = [&r] { return r.path; };
        dynamic_tree t; model m;
        std::vector<tree_node_id_t> ids;
        for (int i = 0; i < n; ++i) {
            int j = order == 0 ? i : order == 1 ? n - 1 - i : order == 2 ? (i * 7) % n : (i % 2 ? n - 1 - i / 2 : i / 2);
            AABB b = kind == 0 ? box(j * 1.5, 0, 0, 1, 1, 1) : kind == 1 ? box(j, j, j, 1, 1, 1) : kind == 2 ? box(-j, -j, -j, 2 * j + 1, 2 * j + 1, 2 * j + 1) : box((j % 4) * 5 + j * 0.2, (j / 4) * 3, j % 3, 1, 2, 1);
            ids.push_back(r.create(t, m, b));
            r.verify(t, m);
        }
        r.explore(t, m, n <= 9 ? 2 : 1);
        // Destroy in strides, then refill.
        for (int stride : {1, 2, 3, 5}) for (int off = 0; off < stride; ++off) {
            dynamic_tree t2 = t; model m2 = m;
            auto len = r.path.size();
            for (int i = off; i < n; i += stride) { r.path += " destroy@" + std::to_string(ids[i]); t2.destroy(ids[i]); m2.erase(ids[i]); r.verify(t2, m2); }
            for (size_t b = 0; b < r.menu.size(); ++b) { r.create(t2, m2, r.menu[b]); r.verify(t2, m2); }
            r.explore(t2, m2, 1);
            r.path.resize(len);
        }
        vp::describer() = nullptr;
    }
}

// Destroyed nodes make room: repeating a cycle of creations and destructions does not use more and more memory.
VP_SCENARIO(churn) {
    for (int keep : {0, 1, 4}) for (int n : {1, 2, 3, 9}) for (int how = 0; how < 4; ++how) {
        if (!vp::begin()) continue;
        vp::describe("%d boxes stay, %d come and go, way %d", keep, n, how);
        dynamic_tree t;
        std::vector<tree_node_id_t> ids; ids.reserve(64);
        if (how != 3) for (int i = 0; i < keep; ++i) t.create(box(i * 3, 0, 0, 1, 1, 1), entt::entity(i));
        auto cycle = [&](int c) {
            ids.clear();
            for (int i = 0; i < n; ++i) ids.push_back(t.create(box(i * 1.5 + c % 3, c % 5, 0, 1, 1, 1), entt::entity(100 + i)));
            if (how == 1) for (int i = 0; i < n; ++i) t.move(ids[i], box(-i * 2 - c % 3, 7, 0, 1, 1, 1));
            if (how == 3) t.clear();
            else for (int i = 0; i < n; ++i) t.destroy(ids[how == 2 ? n - 1 - i : i]);
            vp::transitions();
        };
        int c = 0;
        for (; c < 60; ++c) cycle(c);
        auto before = mallinfo2(); size_t b0 = before.uordblks + before.hblkhd;
        for (; c < 1500; ++c) cycle(c);
        auto after = mallinfo2(); size_t b1 = after.uordblks + after.hblkhd;
        VP_CHECK(b1 <= b0, "memory in use grows from %zu to %zu bytes over 1440 cycles that destroy all they create", b0, b1);
        vp::states();
    }
}
