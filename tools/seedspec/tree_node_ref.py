ID = "tree_node_ref"
PROPERTY = "P10"
NEEDS = "a tree large enough that its node array is reallocated while a parent is being split"
BREAKS = "the children of a parent are written through a dangling reference, so whole subtrees are lost"
EDITS = [("include/edyn/collision/static_tree.hpp", """            node.child1 = child1;
            node.child2 = child2;

            m_nodes.emplace_back();
            m_nodes.emplace_back();""", """            m_nodes.emplace_back();
            m_nodes.emplace_back();

            node.child1 = child1;
            node.child2 = child2;""")]
DEMO = r'''
#include "edyn/collision/static_tree.hpp"
#include <cstdio>
#include <set>
int main() {
    using namespace edyn;
    std::vector<AABB> boxes;
    for (int i = 0; i < 9; ++i) boxes.push_back({vector3{scalar(3 * i), 0, 0}, vector3{scalar(3 * i + 1), 1, 1}});
    static_tree t;
    auto report = [](static_tree::tree_node &n, auto b, auto) { n.id = *b; };
    t.build(boxes.begin(), boxes.end(), report);
    for (int i = 0; i < 9; ++i) {
        std::set<uint32_t> got;
        int visits = 0;
        t.query(boxes[i], [&](uint32_t n) { got.insert(t.get_node(n).id); if (++visits > 1000) { puts("endless"); _Exit(1); } });
        if (got != std::set<uint32_t>{uint32_t(i)}) { printf("box %d not found\n", i); return 1; }
    }
    return 0;
}
'''

FLAGS = "-fsanitize=address"
