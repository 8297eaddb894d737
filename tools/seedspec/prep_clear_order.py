ID = "prep_clear_order"
PROPERTY = "P15"
NEEDS = "a cache that is cleared and refilled, the second round not setting the row options the first one set"
BREAKS = "a row prepared after a clear inherits the error and restitution of a row of the previous step"
EDITS = [("include/edyn/dynamics/row_cache.hpp", """        for (auto &elem : rows) {
            elem.clear();
        }""", """        for (unsigned i = 0; i < num_rows; ++i) {
            rows[i].clear();
        }""")]
DEMO = r'''
#include "edyn/dynamics/row_cache.hpp"
#include <cstdio>
int main() {
    static edyn::constraint_row_prep_cache c;
    c.add_constraint();
    c.add_row();
    c.get_options().error = 3;
    c.get_options().restitution = 1;
    c.clear();
    c.add_constraint();
    c.add_row();
    printf("error %f\n", double(c.get_options().error));
    return c.get_options().error == 0 && c.get_options().restitution == 0 ? 0 : 1;
}
'''
