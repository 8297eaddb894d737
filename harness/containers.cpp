// Small containers and type utilities the engine builds its indices on.
#include "vp.hpp"
#include "edyn/core/flat_nested_array.hpp"
#include "edyn/util/tuple_util.hpp"
#include "edyn/util/vector_util.hpp"
#include "edyn/util/array_util.hpp"
#include <algorithm>
#include <string>
#include <vector>
using namespace edyn;

// All sequences of starting a nested array, appending a value and reserving; the values seen through
// the flat array equal those of a vector of vectors.
static void nested(std::vector<int> &ops, int depth) {
    if (vp::begin()) {
        vp::describer() = [&] { std::string r = "operations"; for (int o : ops) r += o == 0 ? " push_array" : o < 3 ? " push_back" : o == 3 ? " reserve_data" : " reserve_nested"; return r; };
        flat_nested_array<std::string> a; std::vector<std::vector<std::string>> ref; int k = 0;
        for (int o : ops) {
            if (o == 0) { a.push_array(); ref.emplace_back(); }
            else if (o < 3) { auto s = std::to_string(k++) + std::string(o == 2 ? 40 : 0, 'x'); a.push_back(s); ref.back().push_back(s); }
            else if (o == 3) a.reserve_data(size_t(k) + 2); else a.reserve_nested(ref.size() + 2);
            VP_CHECK(a.size() == ref.size(), "%zu nested arrays instead of %zu", a.size(), ref.size());
            for (size_t i = 0; i < ref.size(); ++i) {
                auto in = a[i]; VP_CHECK(in.size() == ref[i].size(), "nested array %zu has %zu elements instead of %zu", i, in.size(), ref[i].size());
                for (size_t j = 0; j < ref[i].size(); ++j) VP_CHECK(in[j] == ref[i][j], "element %zu of nested array %zu", j, i);
            }
            vp::transitions();
        }
        auto b = a; a.push_array(); a.push_back("z");
        VP_CHECK(b.size() == ref.size(), "a copy is affected by its source");
        for (size_t i = 0; i < ref.size(); ++i) { VP_CHECK(b[i].size() == ref[i].size() && a[i].size() == ref[i].size(), "nested array %zu changes when another one is appended", i); for (size_t j = 0; j < ref[i].size(); ++j) VP_CHECK(b[i][j] == ref[i][j] && a[i][j] == ref[i][j], "element %zu of nested array %zu of a copy", j, i); }
        vp::states(); vp::nontrivial(ref.size() > 1);
    }
    if (!depth) return;
    for (int o = 0; o < 5; ++o) { if ((o == 1 || o == 2) && std::count(ops.begin(), ops.end(), 0) == 0) continue; ops.push_back(o); nested(ops, depth - 1); ops.pop_back(); }
}
VP_SCENARIO(nested_array_sequences) { std::vector<int> ops; nested(ops, vp::thorough() ? 8 : 7); }

template<int N> struct tag { int v = N; };
template<typename... Ts> static void tuple_of(const char *name) {
    typedef std::tuple<Ts...> T; T t{};
    constexpr size_t n = sizeof...(Ts);
    size_t idx[n] = {size_t(tuple_index_of<uint16_t, Ts>(t))...}, idx2[n] = {size_t(tuple_type_index_of<uint8_t, Ts, T>::value)...}, idx3[n] = {size_t(index_of_v<unsigned, Ts, Ts...>)...};
    const void *addr[n]; { size_t k = 0; std::apply([&](auto &...e) { ((addr[k++] = &e), ...); }, t); }
    bool has[n] = {tuple_has_type<Ts, T>::value...};
    for (size_t i = 0; i < n; ++i) {
        if (!vp::begin()) continue;
        vp::describe("%s, index %zu of %zu", name, i, n);
        VP_CHECK(idx[i] == i && idx2[i] == i && idx3[i] == i && has[i], "the index of element type %zu is %zu", i, idx[i]);
        int calls = 0; const void *seen = nullptr;
        visit_tuple(t, i, [&](auto &e) { ++calls; seen = &e; });
        VP_CHECK(calls == 1 && seen == addr[i], "visiting index %zu reaches another element", i);
        const T &ct = t; calls = 0; seen = nullptr;
        visit_tuple(ct, uint8_t(i), [&](const auto &e) { ++calls; seen = &e; });
        VP_CHECK(calls == 1 && seen == addr[i], "visiting index %zu of a constant tuple reaches another element", i);
        visit_tuple(t, unsigned(i), [&](auto &e) { e.v = 1000 + int(i); }); int got = -1; visit_tuple(t, i, [&](auto &e) { got = e.v; });
        VP_CHECK(got == 1000 + int(i), "an element changed through a visit is not changed in the tuple");
        VP_CHECK(std::variant_size_v<decltype(tuple_to_variant(t))> == n, "the variant of a tuple has other alternatives");
        vp::states(); vp::nontrivial();
    }
    VP_CHECK(!(tuple_has_type<float, T>::value) && !(has_type<long, Ts...>::value), "a type which is not there is found");
}
VP_SCENARIO(tuple_indices) {
    tuple_of<tag<0>>("one");
    tuple_of<tag<0>, tag<1>>("two");
    tuple_of<tag<2>, tag<1>, tag<0>>("three");
    tuple_of<tag<7>, tag<6>, tag<5>, tag<4>, tag<3>, tag<2>, tag<1>, tag<0>>("eight");
    tuple_of<tag<0>, tag<1>, tag<2>, tag<3>, tag<4>, tag<5>, tag<6>, tag<7>, tag<8>, tag<9>, tag<10>, tag<11>, tag<12>, tag<13>, tag<14>, tag<15>, tag<16>>("seventeen");
}
static void vectors(std::vector<int> &v, int depth) {
    for (int x = 0; x < 4; ++x) {
        if (!vp::begin()) continue;
        vp::describer() = [&] { std::string r = "value " + std::to_string(x) + " in"; for (int e : v) r += " " + std::to_string(e); return r; };
        std::vector<int> ref; bool has = false; for (int e : v) if (e == x) has = true; else ref.push_back(e);
        auto w = v;
        VP_CHECK(vector_contains(w, x) == has && w == v, "containment of a value");
        vector_erase(w, x);
        VP_CHECK(w == ref, "%zu elements are left instead of %zu, or in another order", w.size(), ref.size());
        VP_CHECK(!vector_contains(w, x), "an erased value is still there");
        vp::states(); vp::nontrivial(has); vp::transitions();
    }
    if (!depth) return;
    for (int e = 0; e < 3; ++e) { v.push_back(e); vectors(v, depth - 1); v.pop_back(); }
}
VP_SCENARIO(vector_membership) { std::vector<int> v; vectors(v, 7); }
VP_SCENARIO(filled_arrays) {
    for (int x : {-1, 0, 7}) {
        if (!vp::begin()) continue;
        vp::describe("arrays of %d", x);
        auto a = make_array<1>(x); auto b = make_array<2>(std::to_string(x)); auto c = make_array<17>(x);
        VP_CHECK(a.size() == 1 && b.size() == 2 && c.size() == 17, "sizes"); VP_CHECK(a[0] == x && b[0] == b[1] && b[0] == std::to_string(x), "values"); for (int e : c) VP_CHECK(e == x, "values");
        vp::states(); vp::nontrivial();
    }
}
