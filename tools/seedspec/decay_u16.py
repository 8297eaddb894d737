ID = "decay_u16"
PROPERTY = "P14"
NEEDS = "more than 65.5 seconds elapse between two decays"
BREAKS = "a component stays in the list of modified components long past its duration because the elapsed time is truncated"
EDITS = [("include/edyn/networking/comp/exporter_modified_components.hpp", "void decay(unsigned elapsed_ms)", "void decay(uint16_t elapsed_ms)")]
DEMO = r'''
#include "edyn/networking/comp/exporter_modified_components.hpp"
#include <cstdio>
int main() {
    edyn::exporter_modified_components<4> m;
    m.bump_index(2);
    m.decay(65536 + 100);
    printf("%d left\n", int(m.count));
    return m.empty() ? 0 : 1;
}
'''
