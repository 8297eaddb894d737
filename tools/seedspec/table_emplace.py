ID = "table_emplace"
PROPERTY = "P12"
NEEDS = "inserting a mixing entry for a pair that already has one"
BREAKS = "the later insertion is ignored and the table returns the outdated material"
EDITS = [("include/edyn/dynamics/material_mixing.hpp", "m_table[pair] = material;", "m_table.emplace(pair, material);")]
DEMO = r'''
#include "edyn/dynamics/material_mixing.hpp"
#include <cstdio>
int main() {
    edyn::material_mix_table t;
    edyn::material_base a, b;
    a.friction = edyn::scalar(0.25);
    b.friction = edyn::scalar(0.75);
    t.insert({1, 2}, a);
    t.insert({2, 1}, b);
    auto *m = t.try_get({1, 2});
    return m && m->friction == edyn::scalar(0.75) ? 0 : 1;
}
'''
