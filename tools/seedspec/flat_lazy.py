ID = "flat_lazy"
PROPERTY = "P31"
NEEDS = "an empty nested array followed by another empty nested array"
BREAKS = "consecutive empty nested arrays collapse into one, so every later index is shifted"
EDITS = [("include/edyn/core/flat_nested_array.hpp", "        m_range_starts.push_back(m_data.size());",
"""        if (m_range_starts.size() > 1 && m_range_starts.back() == m_data.size()) {
            return; // Current array still empty, reuse it.
        }
        m_range_starts.push_back(m_data.size());""")]
DEMO = r'''
#include "edyn/core/flat_nested_array.hpp"
#include <cstdio>
int main() {
    edyn::flat_nested_array<int> a;
    a.push_array(); a.push_back(1);
    a.push_array();
    a.push_array();
    a.push_array(); a.push_back(2);
    printf("%zu arrays\n", a.size());
    return a.size() == 4 && a[0].size() == 1 && a[1].size() == 0 && a[2].size() == 0 && a[3].size() == 1 && a[3][0] == 2 ? 0 : 1;
}
'''
