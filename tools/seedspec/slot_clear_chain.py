ID = "slot_clear_chain"
PROPERTY = "P07"
NEEDS = "clear() on a grown container followed by enough insertions to use up all its slots"
BREAKS = "the chain of free slots no longer ends after a clear, so an insertion is placed outside the storage"
EDITS = [("include/edyn/core/free_list.hpp",
"""            m_elem.back().next = null_index;
            m_free_list = 0;
        }

        m_size = 0;""",
"""            m_free_list = 0;
        }

        m_size = 0;""")]
DEMO = r'''
#include "edyn/core/free_list.hpp"
#include <cstdio>
struct E { int v = -1; size_t next = size_t(-1); };
int main() {
    edyn::free_list<E, size_t, size_t(-1)> l;
    for (int i = 0; i < 16; ++i) l.insert({i});
    l.clear();
    for (int i = 0; i < 17; ++i) { auto k = l.insert({i}); if (k >= l.range() || l[k].v != i) return 1; }
    return 0;
}
'''
