// The entity graph against a reference multigraph, over all operation sequences.
#include "vp.hpp"
#include <malloc.h>
#include "edyn/core/entity_graph.hpp"
#include <algorithm>
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace edyn;

namespace {
using idx = entity_graph::index_type;
using ents = std::vector<entt::entity>;

struct rnode { entt::entity e; bool con; };
struct redge { entt::entity e; idx a, b; };
struct model {
    std::map<idx, rnode> nodes;
    std::map<idx, redge> edges;
    bool isolated(idx n) const { for (auto &e : edges) if (e.second.a == n || e.second.b == n) return false; return true; }
    std::set<idx> between(idx a, idx b) const {
        std::set<idx> s;
        for (auto &e : edges) if ((e.second.a == a && e.second.b == b) || (e.second.a == b && e.second.b == a)) s.insert(e.first);
        return s;
    }
    std::set<idx> incident(idx a) const { std::set<idx> s; for (auto &e : edges) if (e.second.a == a || e.second.b == a) s.insert(e.first); return s; }
    // Nodes reached from a node without walking through non-connecting ones; `may` limits the walk.
    template<typename F> std::set<idx> reachable(idx s, F may) const {
        std::set<idx> seen{s}; std::vector<idx> q{s};
        while (!q.empty()) {
            auto n = q.back(); q.pop_back();
            if (!nodes.at(n).con) continue;
            for (auto &e : edges) {
                idx o;
                if (e.second.a == n) o = e.second.b; else if (e.second.b == n) o = e.second.a; else continue;
                if (!seen.count(o) && may(o)) { seen.insert(o); q.push_back(o); }
            }
        }
        return seen;
    }
    std::set<idx> edges_of(const std::set<idx> &ns) const {
        std::set<idx> s;
        for (auto n : ns) if (nodes.at(n).con) for (auto e : incident(n)) s.insert(e);
        return s;
    }
};

ents sorted(ents v) { std::sort(v.begin(), v.end()); return v; }
std::vector<idx> sorted(std::vector<idx> v) { std::sort(v.begin(), v.end()); return v; }
std::vector<idx> vec(const std::set<idx> &s) { return {s.begin(), s.end()}; }

struct runner {
    std::string path;
    size_t cap_nodes = 4, cap_edges = 4;
    bool loops = true;

    ents node_ents(const model &m, const std::set<idx> &s) { ents v; for (auto i : s) v.push_back(m.nodes.at(i).e); return sorted(v); }
    ents edge_ents(const model &m, const std::set<idx> &s) { ents v; for (auto i : s) v.push_back(m.edges.at(i).e); return sorted(v); }

    void verify(const entity_graph &g, const model &m) {
        vp::states();
        VP_CHECK(size_t(g.num_nodes()) == m.nodes.size() && size_t(g.num_edges()) == m.edges.size(),
                 "graph counts %zu nodes and %zu edges, it has %zu and %zu", size_t(g.num_nodes()), size_t(g.num_edges()), m.nodes.size(), m.edges.size());
        for (auto &kv : m.edges) {
            auto &e = kv.second;
            VP_CHECK(g.edge_entity(kv.first) == e.e, "edge %zu holds another entity", size_t(kv.first));
            auto ni = g.edge_node_indices(kv.first);
            VP_CHECK(ni[0] == e.a && ni[1] == e.b, "edge %zu connects other nodes than it was created with", size_t(kv.first));
            auto ne = g.edge_node_entities(kv.first);
            VP_CHECK(ne.first == m.nodes.at(e.a).e && ne.second == m.nodes.at(e.b).e, "edge %zu reports other node entities", size_t(kv.first));
        }
        for (auto &kv : m.nodes) {
            auto n = kv.first;
            VP_CHECK(g.node_entity(n) == kv.second.e, "node %zu holds another entity", size_t(n));
            VP_CHECK(g.is_connecting_node(n) == kv.second.con, "node %zu changed whether it connects", size_t(n));
            ents want_nb, got_nb;
            for (auto &o : m.nodes) {
                auto es = m.between(n, o.first);
                VP_CHECK(g.has_adjacency(n, o.first) == !es.empty(), "has_adjacency(%zu, %zu) is wrong with %zu edges between them", size_t(n), size_t(o.first), es.size());
                if (!es.empty()) want_nb.push_back(o.second.e);
                std::vector<idx> got;
                g.visit_edges(n, o.first, [&](idx e) { got.push_back(e); });
                VP_CHECK(sorted(got) == vec(es), "edges visited between nodes %zu and %zu are not the %zu edges between them", size_t(n), size_t(o.first), es.size());
                if (es.size() > 1) {
                    size_t cnt = 0;
                    g.visit_edges(n, o.first, [&](idx) -> bool { return ++cnt < 2; });
                    VP_CHECK(cnt == 2, "visiting of edges between two nodes did not stop when told to");
                }
            }
            g.visit_neighbors(n, [&](entt::entity e) { got_nb.push_back(e); });
            VP_CHECK(sorted(got_nb) == sorted(want_nb), "neighbours of node %zu are not visited exactly once each", size_t(n));
            if (want_nb.size() > 1) {
                size_t cnt = 0;
                g.visit_neighbors(n, [&](entt::entity) -> bool { return ++cnt < 2; });
                VP_CHECK(cnt == 2, "visiting of neighbours did not stop when told to");
            }
            auto inc = m.incident(n);
            std::vector<idx> got;
            g.visit_edges(n, [&](idx e) { got.push_back(e); });
            VP_CHECK(sorted(got) == vec(inc), "edges visited at node %zu are not its %zu edges", size_t(n), inc.size());
            for (size_t stop = 1; stop < inc.size(); ++stop) {
                size_t cnt = 0;
                g.visit_edges(n, [&](idx) -> bool { return ++cnt < stop; });
                VP_CHECK(cnt == stop, "visiting of edges at a node did not stop when told to");
            }
            // Traversal from this node.
            auto reach = m.reachable(n, [](idx) { return true; });
            std::vector<idx> tn, tn2, te;
            g.traverse(n, [&](idx i) { tn.push_back(i); });
            g.traverse(n, [&](idx i) { tn2.push_back(i); }, [&](idx e) { te.push_back(e); });
            VP_CHECK(!tn.empty() && tn[0] == n, "traversal does not start at its start node");
            VP_CHECK(sorted(tn) == vec(reach) && sorted(tn2) == vec(reach), "traversal from node %zu does not visit exactly the %zu nodes reachable", size_t(n), reach.size());
            VP_CHECK(sorted(te) == vec(m.edges_of(reach)), "traversal from node %zu does not visit each edge on the way exactly once", size_t(n));
        }
        // Connected components.
        std::set<std::pair<ents, ents>> want;
        std::set<idx> done;
        for (auto &kv : m.nodes) {
            if (!kv.second.con || done.count(kv.first)) continue;
            auto r = m.reachable(kv.first, [](idx) { return true; });
            for (auto i : r) done.insert(i);
            want.insert({node_ents(m, r), edge_ents(m, m.edges_of(r))});
        }
        auto comps = g.connected_components();
        std::set<std::pair<ents, ents>> got;
        for (auto &c : comps) got.insert({sorted(c.nodes), sorted(c.edges)});
        VP_CHECK(comps.size() == want.size() && got == want, "connected_components() returns %zu components (%zu distinct), there are %zu, or their contents differ", comps.size(), got.size(), want.size());
        if (!m.nodes.empty())
            VP_CHECK(g.is_single_connected_component() == (want.size() <= 1), "is_single_connected_component() is wrong with %zu components", want.size());
        // reach(): from every nonempty set of connecting nodes, with every single node excluded or none.
        std::vector<idx> con;
        for (auto &kv : m.nodes) if (kv.second.con) con.push_back(kv.first);
        if (con.size() > 4) con.resize(4);
        std::vector<idx> excl{entity_graph::null_index};
        for (auto &kv : m.nodes) if (excl.size() < 5) excl.push_back(kv.first);
        for (auto ex : excl) for (unsigned mask = 1; mask < (1u << con.size()); ++mask) {
            std::vector<idx> starts;
            for (size_t k = 0; k < con.size(); ++k) if (mask >> k & 1) starts.push_back(con[k]);
            auto may = [&](idx i) { return i != ex; };
            std::vector<std::pair<ents, ents>> w, r(1);
            std::set<idx> dn; std::set<idx> de;
            for (auto s : starts) {
                if (dn.count(s) || !may(s)) continue;
                auto rr = m.reachable(s, may);
                for (auto i : rr) if (m.nodes.at(i).con) dn.insert(i);
                std::set<idx> es;
                for (auto e : m.edges_of(rr)) if (de.insert(e).second) es.insert(e);
                w.push_back({node_ents(m, rr), edge_ents(m, es)});
            }
            g.reach(starts.begin(), starts.end(), [&](entt::entity e) { r.back().first.push_back(e); }, [&](entt::entity e) { r.back().second.push_back(e); },
                    may, [&] { r.back().first = sorted(r.back().first); r.back().second = sorted(r.back().second); r.emplace_back(); });
            VP_CHECK(r.back().first.empty() && r.back().second.empty(), "reach() visits something outside a component");
            r.pop_back();
            VP_CHECK(r == w, "reach() from %zu nodes finds %zu components, expected %zu, or their contents differ", starts.size(), r.size(), w.size());
        }
    }

    unsigned next = 1;
    entt::entity fresh() { return entt::entity(next++); }

    idx add_node(entity_graph &g, model &m, bool con) {
        auto e = fresh();
        auto i = con ? g.insert_node(e) : g.insert_node(e, true);
        VP_CHECK(!m.nodes.count(i), "insert_node returned index %zu, which is in use", size_t(i));
        m.nodes[i] = {e, con};
        return i;
    }
    idx add_edge(entity_graph &g, model &m, idx a, idx b) {
        auto e = fresh();
        auto i = g.insert_edge(e, a, b);
        VP_CHECK(!m.edges.count(i), "insert_edge returned index %zu, which is in use", size_t(i));
        m.edges[i] = {e, a, b};
        return i;
    }

    void explore(const entity_graph &g, const model &m, int depth) {
        ++vp::st().progress;
        verify(g, m);
        if (depth == 0) return;
        auto len = path.size();
        auto go = [&](std::string op, auto &&f) {
            vp::transitions();
            path += " " + op;
            entity_graph g2 = g; model m2 = m;
            f(g2, m2);
            explore(g2, m2, depth - 1);
            path.resize(len);
        };
        auto S = [](idx i) { return std::to_string(size_t(i)); };
        if (m.nodes.size() < cap_nodes) for (bool con : {true, false})
            go(con ? "node" : "node*", [&](entity_graph &g2, model &m2) { add_node(g2, m2, con); });
        for (auto &kv : m.nodes) {
            auto n = kv.first;
            if (m.isolated(n)) go("rmnode" + S(n), [&](entity_graph &g2, model &m2) { g2.remove_node(n); m2.nodes.erase(n); });
            else go("rmall" + S(n), [&](entity_graph &g2, model &m2) { g2.remove_all_edges(n); for (auto e : m.incident(n)) m2.edges.erase(e); });
            go("flip" + S(n), [&](entity_graph &g2, model &m2) { g2.set_connecting_node(n, !m.nodes.at(n).con); m2.nodes[n].con = !m2.nodes[n].con; });
            if (m.incident(n).size() > 1) {
                // Edges may be removed while they are being visited.
                go("rmvisit" + S(n), [&](entity_graph &g2, model &m2) {
                    std::vector<idx> got;
                    g2.visit_edges(n, [&](idx e) { got.push_back(e); g2.remove_edge(e); });
                    VP_CHECK(sorted(got) == vec(m.incident(n)), "removing edges while visiting them skips some at node %zu", size_t(n));
                    for (auto e : m.incident(n)) m2.edges.erase(e);
                });
            }
            if (m.edges.size() < cap_edges) for (auto &o : m.nodes) {
                if (!loops && o.first == n) continue;
                go("edge" + S(n) + "-" + S(o.first), [&](entity_graph &g2, model &m2) { add_edge(g2, m2, n, o.first); });
            }
        }
        for (auto &kv : m.edges) { auto e = kv.first; go("rmedge" + S(e), [&](entity_graph &g2, model &m2) { g2.remove_edge(e); m2.edges.erase(e); }); }
        go("clear", [&](entity_graph &g2, model &m2) { g2.clear(); m2 = model{}; });
    }
};
}

VP_SCENARIO(from_nodes) {
    // Every kind pattern of up to 4 nodes, then all sequences.
    for (int n = 0; n <= 4; ++n) for (int kinds = 0; kinds < (1 << n); ++kinds) {
        if (!vp::begin()) continue;
        runner r;
        r.path = "nodes " + std::to_string(n) + " non-connecting mask " + std::to_string(kinds) + ":";
        vp::describer() = [&r] { return r.path; };
        entity_graph g; model m;
        for (int i = 0; i < n; ++i) r.add_node(g, m, !(kinds >> i & 1));
        r.cap_nodes = 4;
        int d = n == 0 ? 5 : n <= 2 ? 4 : n == 3 ? 3 : 3;
        if (vp::thorough()) d += 1;
        r.explore(g, m, d);
        vp::describer() = nullptr;
    }
}
VP_SCENARIO(multigraphs) {
    // All sequences of edges over three nodes, then all operations.
    for (int kinds = 0; kinds < 4; ++kinds) for (int n = 0; n < 9 * 9 * 9; ++n) {
        if (!vp::begin()) continue;
        runner r;
        r.path = "mask " + std::to_string(kinds) + " edges";
        vp::describer() = [&r] { return r.path; };
        entity_graph g; model m;
        idx v[3];
        for (int i = 0; i < 3; ++i) v[i] = r.add_node(g, m, !(kinds >> i & 1));
        int c = n;
        for (int k = 0; k < 3; ++k, c /= 9) {
            r.path += " " + std::to_string(c % 9 / 3) + "-" + std::to_string(c % 3);
            r.add_edge(g, m, v[c % 9 / 3], v[c % 3]);
        }
        r.path += ":";
        r.cap_nodes = 3; r.cap_edges = 5;
        r.explore(g, m, vp::thorough() ? 3 : 2);
        vp::describer() = nullptr;
    }
}
VP_SCENARIO(growth) {
    // More nodes, edges and adjacencies than one allocation holds, then all sequences.
    for (int nn : {2, 8, 9, 15, 16, 17, 18}) for (int shape = 0; shape < 4; ++shape) {
        if (!vp::begin()) continue;
        runner r;
        r.path = std::to_string(nn) + " nodes, shape " + std::to_string(shape) + ":";
        vp::describer() = [&r] { return r.path; };
        entity_graph g; model m;
        std::vector<idx> v;
        for (int i = 0; i < nn; ++i) v.push_back(r.add_node(g, m, shape != 3 || i % 3 != 1));
        if (shape == 0) for (int i = 1; i < nn; ++i) r.add_edge(g, m, v[0], v[i]);                      // star
        if (shape == 1 || shape == 3) for (int i = 0; i + 1 < nn; ++i) r.add_edge(g, m, v[i], v[i + 1]);// chain
        if (shape == 2) for (int i = 0; i < nn + 16; ++i) r.add_edge(g, m, v[i % 2], v[1 - i % 2]);     // one thick bundle
        r.cap_nodes = nn + 1; r.cap_edges = nn + 20;
        r.loops = nn < 9;
        r.explore(g, m, nn == 2 ? 2 : 1);
        vp::describer() = nullptr;
    }
}

// What is removed makes room: repeating a cycle of insertions and removals does not use more and more memory.
VP_SCENARIO(churn) {
    for (int nn : {2, 3, 5, 17}) for (int shape = 0; shape < 5; ++shape) for (int removal = 0; removal < 5; ++removal) {
        if (!vp::begin()) continue;
        vp::describe("%d nodes, shape %d, way of removing %d", nn, shape, removal);
        entity_graph g;
        std::vector<idx> fixed; for (int i = 0; i < nn; ++i) fixed.push_back(g.insert_node(entt::entity(i + 1)));
        std::vector<idx> v, es; v.reserve(64); es.reserve(64);
        auto cycle = [&](int c) {
            v.clear(); es.clear();
            if (removal == 3 || removal == 4) for (int i = 0; i < nn; ++i) v.push_back(g.insert_node(entt::entity(1000 + i), c % 2)); else v = fixed;
            auto add = [&](idx a, idx b) { es.push_back(g.insert_edge(entt::entity(2000 + es.size()), a, b)); };
            if (shape == 0) for (int i = 1; i < nn; ++i) add(v[0], v[i]);
            if (shape == 1) for (int i = 0; i + 1 < nn; ++i) add(v[i], v[i + 1]);
            if (shape == 2) for (int i = 0; i < nn + 3; ++i) add(v[i % 2], v[1 - i % 2]);
            if (shape == 3) for (int i = 0; i < nn; ++i) { add(v[i], v[(i + 1) % nn]); add(v[i], v[i]); }
            if (shape == 4) for (int i = 0; i < nn; ++i) for (int j = 0; j < i && j < 3; ++j) add(v[i], v[j]);
            if (removal == 0) for (auto e : es) g.remove_edge(e);
            if (removal == 1) for (auto n : v) g.remove_all_edges(n);
            if (removal == 2) for (size_t i = es.size(); i > 0; --i) g.remove_edge(es[i - 1]);
            if (removal == 3) { for (auto n : v) g.remove_all_edges(n); for (auto n : v) g.remove_node(n); }
            if (removal == 4) { g.clear(); }
            vp::transitions();
        };
        int c = 0;
        for (; c < 40; ++c) cycle(c);
        auto before = mallinfo2(); size_t b0 = before.uordblks + before.hblkhd;
        for (; c < 1000; ++c) cycle(c);
        auto after = mallinfo2(); size_t b1 = after.uordblks + after.hblkhd;
        VP_CHECK(b1 <= b0, "memory in use grows from %zu to %zu bytes over 960 cycles that remove all they insert", b0, b1);
        vp::states();
    }
}
