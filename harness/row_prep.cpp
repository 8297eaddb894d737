// The per-entity row buffer filled during preparation and consumed when rows are packed.
#include "vp.hpp"
#include "edyn/dynamics/row_cache.hpp"
#include <string>
#include <vector>
using namespace edyn;

namespace {
struct mrow { int id; unsigned flags = 0; int fr = 0, ro = 0, sp = 0; bool opt = false; };
struct model { std::vector<std::vector<mrow>> cons; size_t consumed = 0; size_t rows() const { size_t n = 0; for (auto &c : cons) n += c.size(); return n; } };
using cache = constraint_row_prep_cache;
std::string path;

void compare(const cache::element &e, const mrow &r) {
    VP_CHECK(e.row.impulse == scalar(r.id) && e.row.lower_limit == scalar(-r.id), "row %d was handed out with the content of another", r.id);
    VP_CHECK(e.flags == r.flags, "row %d has flags %u instead of %u", r.id, unsigned(e.flags), r.flags);
    if (r.fr) VP_CHECK(e.friction.friction_coefficient == scalar(r.fr), "friction row of row %d", r.id);
    if (r.ro) VP_CHECK(e.rolling.friction_coefficient == scalar(r.ro), "rolling row of row %d", r.id);
    if (r.sp) VP_CHECK(e.spinning.friction_coefficient == scalar(r.sp), "spinning row of row %d", r.id);
    constraint_row_options d;
    VP_CHECK(e.options.error == (r.opt ? scalar(r.id) : d.error) && e.options.erp == (r.opt ? scalar(0.5) : d.erp) && e.options.restitution == (r.opt ? scalar(2) : d.restitution),
             "the options of row %d are %s", r.id, r.opt ? "lost" : "not the default ones");
}
void consume(cache &c, model &m) {
    VP_CHECK(size_t(c.current_num_rows()) == m.cons[m.consumed].size(), "the next constraint has %d rows instead of %zu", int(c.current_num_rows()), m.cons[m.consumed].size());
    size_t n = 0;
    c.consume_rows([&](cache::element &e) { VP_CHECK(n < m.cons[m.consumed].size(), "more rows than were added"); compare(e, m.cons[m.consumed][n++]); });
    VP_CHECK(n == m.cons[m.consumed].size(), "%zu rows consumed instead of %zu", n, m.cons[m.consumed].size());
    ++m.consumed;
}
void verify(const cache &c, const model &m) {
    vp::states();
    VP_CHECK(c.num_rows == m.rows() && c.num_constraints == m.cons.size(), "%d rows, %d constraints", int(c.num_rows), int(c.num_constraints));
    cache d = c; model e = m; while (e.consumed < e.cons.size()) consume(d, e);
}
void add_row(cache &c, model &m, int id) { auto &r = c.add_row(); r.impulse = scalar(id); r.lower_limit = scalar(-id); m.cons.back().push_back({id}); VP_CHECK(&c.get_current_row() == &r, "the current row is not the one just added"); }
bool cur(const model &m) { return !m.cons.empty() && !m.cons.back().empty(); }

void explore(const cache &c, const model &m, int depth, int id) {
    ++vp::st().progress; verify(c, m); if (!depth) return;
    auto len = path.size();
    auto go = [&](const char *name, auto f) { vp::transitions(); path += name; cache d = c; model e = m; f(d, e); explore(d, e, depth - 1, id + 1); path.resize(len); };
    if (m.cons.size() < cache::max_constraints) go(" constraint", [](cache &d, model &e) { d.add_constraint(); e.cons.emplace_back(); });
    if (!m.cons.empty() && m.rows() < cache::max_rows) go(" row", [&](cache &d, model &e) { add_row(d, e, id); });
    if (cur(m)) {
        auto &r = m.cons.back().back();
        if (!(r.flags & 1)) go(" friction", [&](cache &d, model &e) { d.add_friction_row().friction_coefficient = scalar(id); e.cons.back().back().flags |= 1; e.cons.back().back().fr = id; });
        if (!(r.flags & 2)) go(" rolling", [&](cache &d, model &e) { d.add_rolling_row().friction_coefficient = scalar(id); e.cons.back().back().flags |= 2; e.cons.back().back().ro = id; });
        if (!(r.flags & 4)) go(" spinning", [&](cache &d, model &e) { d.add_spinning_row().friction_coefficient = scalar(id); e.cons.back().back().flags |= 4; e.cons.back().back().sp = id; });
        if (!r.opt) go(" options", [&](cache &d, model &e) { auto &o = d.get_options(); auto &b = e.cons.back().back(); o.error = scalar(b.id); o.erp = scalar(0.5); o.restitution = 2; b.opt = true; });
    }
    if (m.consumed < m.cons.size()) go(" consume", [&](cache &d, model &e) { consume(d, e); });
    if (!m.cons.empty()) go(" clear", [](cache &d, model &e) { d.clear(); e = {}; });
}
// Fills the buffer with the given numbers of rows, everything flagged in a fixed pattern.
void fill(cache &c, model &m, const std::vector<int> &n, int id) {
    for (int k : n) {
        c.add_constraint(); m.cons.emplace_back();
        for (int i = 0; i < k; ++i) {
            add_row(c, m, ++id); auto &b = m.cons.back().back();
            if (id % 2) { c.add_friction_row().friction_coefficient = scalar(id); b.flags |= 1; b.fr = id; }
            if (id % 3 == 0) { c.add_rolling_row().friction_coefficient = scalar(id + 1); b.flags |= 2; b.ro = id + 1; }
            if (id % 5 == 0) { c.add_spinning_row().friction_coefficient = scalar(id + 2); b.flags |= 4; b.sp = id + 2; }
            if (id % 4 == 0) { auto &o = c.get_options(); o.error = scalar(id); o.erp = scalar(0.5); o.restitution = 2; b.opt = true; }
        }
    }
}
}

VP_SCENARIO(operation_sequences) {
    vp::describer() = [] { return path; };
    // Starts: empty, almost full of rows, almost full of constraints, reused after being full.
    for (int start = 0; start < 4; ++start) {
        if (!vp::begin()) continue;
        cache c; model m; path.clear();
        if (start == 1) { fill(c, m, {3, 0, 4, 1, 6}, 100); path = "3+0+4+1+6 rows;"; }
        if (start == 2) { fill(c, m, {1, 0, 0, 2, 1, 1, 3}, 100); path = "1+0+0+2+1+1+3 rows;"; }
        if (start == 3) { fill(c, m, {8, 8}, 100); while (m.consumed < 2) consume(c, m); c.clear(); m = {}; path = "8+8 rows consumed and cleared;"; }
        explore(c, m, vp::thorough() ? 11 : 9, 1);
    }
}
// Every distribution of rows over constraints, before and after a clear.
VP_SCENARIO(distributions) {
    for (int cons = 1; cons <= 8; ++cons) {
        int lim = cons <= 4 ? 5 : vp::thorough() ? 3 : 2; long total = 1; for (int i = 0; i < cons; ++i) total *= lim + 1;
        for (long k = 0; k < total; ++k) {
            if (!vp::begin()) continue;
            std::vector<int> n; long r = k; int sum = 0; for (int i = 0; i < cons; ++i) { n.push_back(int(r % (lim + 1))); r /= lim + 1; sum += n.back(); }
            if (sum > 16) continue;
            vp::describer() = [&] { std::string s; for (int x : n) s += " " + std::to_string(x); return "rows per constraint:" + s; };
            cache c; model m; fill(c, m, n, 0); vp::transitions(sum); verify(c, m);
            while (m.consumed < m.cons.size()) consume(c, m);
            c.clear(); m = {}; std::vector<int> rev(n.rbegin(), n.rend()); fill(c, m, rev, 7); vp::transitions(sum); verify(c, m);
        }
    }
}
VP_SCENARIO(row_cache_clear) {
    for (int mask = 0; mask < 64; ++mask) {
        if (!vp::begin()) continue;
        vp::describe("arrays filled: %d", mask); row_cache r;
        for (int again = 0; again < 2; ++again) {
            if (mask & 1) r.rows.resize(2); if (mask & 2) r.con_num_rows.resize(3); if (mask & 4) r.flags.resize(2);
            if (mask & 8) r.friction.resize(1); if (mask & 16) r.rolling.resize(1); if (mask & 32) r.spinning.resize(4);
            r.clear(); vp::states();
            VP_CHECK(r.rows.empty() && r.con_num_rows.empty() && r.flags.empty() && r.friction.empty() && r.rolling.empty() && r.spinning.empty(), "content left after a clear");
        }
    }
}
