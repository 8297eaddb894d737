// Round trip of containers and of nested combinations of them.
#include "s11n.hpp"
#include "edyn/serialization/entt_s11n.hpp"
#include "edyn/serialization/s11n_util.hpp"
#include <map>
#include <optional>
#include <variant>

namespace s11n {
template<class V> void fields(V &v, std::string &s) { v.size(s.size()); for (auto &c : s) v.leaf(c); }
template<class V> void fields(V &v, std::vector<bool> &a) { v.size(a.size()); for (size_t i = 0; i < a.size(); ++i) { bool b = a[i]; v.leaf(b); a[i] = b; } }
template<class V, class A, class B> void fields(V &v, std::pair<A, B> &p) { fields(v, p.first); fields(v, p.second); }
template<class V, class T> void fields(V &v, std::optional<T> &o) { v.size(o ? 1 : 0); if (o) fields(v, *o); }
template<class V, class... T> void fields(V &v, std::variant<T...> &o) { v.size(o.index()); std::visit([&](auto &x) { fields(v, x); }, o); }
template<class K, class E> void fields(dumper &v, std::map<K, E> &m) { v.size(m.size()); for (auto &p : m) { auto k = p.first; fields(v, k); fields(v, p.second); } }
template<class K, class E> void fields(filler &v, std::map<K, E> &m) { for (auto &p : m) fields(v, p.second); }

template<class T, class F> void sizes(const char *name, std::initializer_list<size_t> ns, F make, size_t cap = 65535) {
    T stale = make(3); { filler f; f.k = 5; fields(f, stale); }
    for (size_t n : ns) {
        if (!vp::begin()) continue;
        vp::describe("%s of %zu elements", name, n);
        T t = make(n); filler f; f.k = unsigned(n); fields(f, t);
        T capped = t;
        if constexpr(std::is_same_v<T, std::string> || !std::is_same_v<T, std::map<uint32_t, uint16_t>>) { if (capped.size() > cap) capped.resize(cap); }
        else while (capped.size() > cap) capped.erase(std::prev(capped.end()));
        roundtrip(name, t, stale, options{n < 4 || n == 65535, n < 70}, dump(capped)); vp::states(); vp::nontrivial();
    }
}
#define BIG 255, 256, 257, 1000, 32767, 32768, 65534, 65535, 65536, 65537, 70000, 131072
}
using namespace s11n;

VP_SCENARIO(std_vectors) {
    auto mk = [](auto t) { return [](size_t n) { decltype(t) v; v.resize(n); return v; }; };
    sizes<std::vector<uint8_t>>("vector of bytes", {0, 1, 2, 3, 15, 16, BIG}, mk(std::vector<uint8_t>{}));
    sizes<std::vector<float>>("vector of floats", {0, 1, 2, 3, BIG}, mk(std::vector<float>{}));
    sizes<std::vector<vector3>>("vector of vector3", {0, 1, 2, 3, 65535, 65536}, mk(std::vector<vector3>{}));
    sizes<std::vector<entt::entity>>("vector of entities", {0, 1, 2, 3, BIG}, mk(std::vector<entt::entity>{}));
    sizes<std::string>("string", {0, 1, 2, 3, 22, 23, BIG}, mk(std::string{}));
    sizes<std::vector<std::array<uint16_t, 3>>>("vector of arrays", {0, 1, 2, 3, 64, 65535, 65536}, mk(std::vector<std::array<uint16_t, 3>>{}));
}
VP_SCENARIO(std_vector_bool) {
    auto mk = [](size_t n) { return std::vector<bool>(n); };
    sizes<std::vector<bool>>("vector of bools", {0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 30, 31, 32, 33, 34, 63, 64, 65, 66, 95, 96, 97, 127, 128, 129, BIG}, mk);
    // every bit pattern up to a length; the pattern of all others around a word boundary
    int maxbits = vp::thorough() ? 14 : 11;
    for (int n = 0; n <= maxbits; ++n) for (unsigned p = 0; p < (1u << n); ++p) for (int pad : {0, 24, 29, 32}) {
        if (pad && n < 6) continue;
        if (!vp::begin()) continue;
        vp::describe("vector of %d bools after %d others, pattern %x", n, pad, p);
        std::vector<bool> v(pad, true); for (int i = 0; i < n; ++i) v.push_back(p >> i & 1);
        std::vector<bool> stale(40, true);
        std::vector<uint8_t> b; memory_output_archive o(b); o(v);
        VP_CHECK(b.size() == serialization_sizeof(v), "a vector of %zu bools takes %zu bytes, announced %zu", v.size(), b.size(), serialization_sizeof(v));
        memory_input_archive in(b.data(), b.size()); in(stale);
        VP_CHECK(!in.failed() && in.eof() && stale == v, "a vector of bools is not read back as written");
        vp::states(); vp::nontrivial(n > 0); vp::transitions(2);
    }
}
VP_SCENARIO(std_maps) {
    auto mk = [](size_t n) { std::map<uint32_t, uint16_t> m; for (size_t i = 0; i < n; ++i) m[uint32_t(i * 2654435761u)] = 0; return m; };
    sizes<std::map<uint32_t, uint16_t>>("map", {0, 1, 2, 3, 8, 255, 256, 65534, 65535, 65536, 70000}, mk);
    // every content over three keys and three values, over every previous content
    for (int a = 0; a < 64; ++a) for (int b = 0; b < 64; ++b) {
        if (!vp::begin()) continue;
        vp::describe("map number %d read over map number %d", a, b);
        auto of = [](int c) { std::map<entt::entity, std::string> m; for (int k = 0; k < 3; ++k, c /= 4) if (c % 4) m[entt::entity(k)] = std::string(c % 4, char('a' + k)); return m; };
        auto ma = of(a), mb = of(b); std::vector<uint8_t> buf; memory_output_archive o(buf); o(ma);
        memory_input_archive in(buf.data(), buf.size()); in(mb);
        VP_CHECK(!in.failed() && in.eof() && ma == mb, "a map is not read back as written into a map that held other entries");
        vp::states(); vp::nontrivial(a != b); vp::transitions(2);
    }
}
// Inputs that announce repeated keys: the entries stay consistent with a plain map.
VP_SCENARIO(std_compound) {
    enumerate<std::pair<uint8_t, double>>("pair");
    enumerate<std::pair<entt::entity, vector3>>("pair of entity and vector");
    enumerate<std::array<uint16_t, 5>>("array");
    enumerate<std::array<std::array<float, 2>, 3>>("nested array");
    enumerate<std::optional<uint32_t>>("empty optional");
    enumerate<std::optional<uint32_t>>("optional", std::optional<uint32_t>{1});
    enumerate<std::optional<vector3>>("optional vector", std::optional<vector3>{vector3_zero});
    enumerate<std::optional<std::optional<bool>>>("nested optional", std::optional<std::optional<bool>>{std::optional<bool>{true}});
    enumerate<entt::entity>("entity");
    using var = std::variant<uint8_t, double, vector3, std::string, std::pair<bool, float>>;
    enumerate<var>("variant 0", var{uint8_t(1)}); enumerate<var>("variant 1", var{1.0}); enumerate<var>("variant 2", var{vector3_x});
    enumerate<var>("variant 3", var{std::string("abc")}); enumerate<var>("variant 4", var{std::pair<bool, float>{}});
    using deep = std::vector<std::pair<entt::entity, std::vector<uint16_t>>>;
    enumerate<deep>("nested vectors", deep{{entt::entity{1}, {1, 2, 3}}, {entt::entity{2}, {}}, {entt::entity{3}, {4}}});
    enumerate<std::vector<var>>("vector of variants", std::vector<var>{var{1.0}, var{std::string("x")}, var{vector3_y}, var{uint8_t(3)}});
    enumerate<std::vector<std::string>>("vector of strings", std::vector<std::string>{"", "a", "bc", std::string(20, 'd')});
    enumerate<std::vector<std::vector<bool>>>("vector of bit vectors", std::vector<std::vector<bool>>{std::vector<bool>(33), {}, std::vector<bool>(32), std::vector<bool>(1)});
    enumerate<std::map<uint8_t, std::vector<uint8_t>>>("map of vectors", std::map<uint8_t, std::vector<uint8_t>>{{1, {1, 2}}, {7, {}}, {9, {3}}});
    enumerate<std::optional<std::vector<uint8_t>>>("optional vector of bytes", std::optional<std::vector<uint8_t>>{std::vector<uint8_t>(3)});
}
// A variant read over any other alternative becomes the alternative written.
VP_SCENARIO(std_variant_switch) {
    using var = std::variant<uint8_t, double, vector3, std::string, uint16_t>;
    auto of = [](int c) { switch (c) { case 0: return var{uint8_t(7)}; case 1: return var{2.5}; case 2: return var{vector3_z}; case 3: return var{std::string("hello")}; default: return var{uint16_t(9)}; } };
    for (int a = 0; a < 5; ++a) for (int b = 0; b < 5; ++b) {
        if (!vp::begin()) continue;
        vp::describe("variant alternative %d read over alternative %d", a, b);
        auto va = of(a), vb = of(b); roundtrip("variant", va, vb, options{true, true}); vp::states(); vp::nontrivial();
        std::optional<var> oa = va, ob; std::optional<var> empty;
        roundtrip("optional variant", oa, ob); roundtrip("empty optional", empty, oa); vp::transitions(2);
        bool plain = a == 0 || a == 1 || a == 2 || a == 4;
        std::vector<uint8_t> buf; memory_output_archive o(buf); o(va);
        if (plain) VP_CHECK(serialization_sizeof(va) == buf.size(), "announced size of a variant is wrong");
    }
}
VP_SCENARIO(std_sizeof) {
    for (size_t n = 0; n < 70; ++n) {
        if (!vp::begin()) continue;
        vp::describe("announced sizes of containers of %zu elements", n);
        auto bytes = [](auto &v) { std::vector<uint8_t> b; memory_output_archive o(b); o(v); return b.size(); };
        std::vector<uint8_t> a(n); std::vector<vector3> b(n); std::vector<std::array<uint32_t, 2>> c(n); std::vector<bool> d(n); std::map<uint16_t, uint16_t> e; for (size_t i = 0; i < n; ++i) e[uint16_t(i)] = 1;
        std::array<double, 4> f; std::pair<uint32_t, uint32_t> g; std::optional<std::vector<uint8_t>> h; if (n) h = a;
        VP_CHECK(serialization_sizeof(a) == bytes(a) && serialization_sizeof(b) == bytes(b) && serialization_sizeof(c) == bytes(c) && serialization_sizeof(d) == bytes(d) && serialization_sizeof(e) == bytes(e) && serialization_sizeof(f) == bytes(f) && serialization_sizeof(g) == bytes(g) && serialization_sizeof(h) == bytes(h), "the announced size of a container of %zu elements differs from what is written", n);
        vp::states(); vp::nontrivial();
    }
}
// Every byte string over an alphabet as input of nested containers.
template<class T> static void hostile(const char *name, int maxlen) {
    static const uint8_t alpha[] = {0, 1, 2, 0xff};
    for (int n = 0; n <= maxlen; ++n) {
        size_t total = 1; for (int i = 0; i < n; ++i) total *= 4;
        for (size_t c = 0; c < total; ++c) {
            if (!vp::begin()) continue;
            vp::describe("%s from arbitrary input of %d bytes, number %zu", name, n, c);
            std::vector<uint8_t> in(n); size_t cc = c; for (auto &b : in) { b = alpha[cc % 4]; cc /= 4; }
            T t{}; block b(in.data(), in.size(), 1); memory_input_archive ar(b.data(), b.n); ar(t);
            if (!ar.failed()) { // whatever it became can be written and read again
                std::vector<uint8_t> w; memory_output_archive o(w); o(t);
                T u{}; memory_input_archive ir(w.data(), w.size()); ir(u);
                VP_CHECK(!ir.failed() && ir.eof() && dump(t) == dump(u), "%s: a value accepted from arbitrary input does not survive a round trip", name);
                vp::nontrivial();
            }
            vp::states();
        }
    }
}
VP_SCENARIO(std_any_input) {
    int d = vp::thorough() ? 7 : 5;
    hostile<std::vector<uint8_t>>("vector of bytes", d); hostile<std::string>("string", d); hostile<std::vector<bool>>("vector of bools", d + 1);
    hostile<std::vector<std::vector<uint8_t>>>("vector of vectors", d - 1); hostile<std::map<uint8_t, uint8_t>>("map", d);
    hostile<std::optional<uint16_t>>("optional", 5); hostile<std::variant<uint8_t, uint16_t, std::vector<uint8_t>>>("variant", d);
    hostile<std::vector<std::variant<uint8_t, bool>>>("vector of variants", d - 1); hostile<std::vector<std::optional<bool>>>("vector of optionals", d - 1);
}
// All prefixes and all single byte changes of a deep value.
VP_SCENARIO(std_mutations) {
    using var = std::variant<uint8_t, vector3, std::string>;
    struct { std::vector<std::pair<entt::entity, std::vector<uint16_t>>> a; std::map<uint32_t, std::string> b; std::vector<var> c; std::vector<bool> d; std::optional<std::string> e; } v;
    v.a = {{entt::entity{1}, {1, 2, 3}}, {entt::entity{2}, {}}}; v.b = {{1, "one"}, {2, ""}, {9, "nine"}}; v.c = {var{uint8_t(1)}, var{std::string("ab")}, var{vector3_x}}; v.d = std::vector<bool>(37, true); v.e = "opt";
    std::vector<uint8_t> bytes; memory_output_archive o(bytes); o(v.a, v.b, v.c, v.d, v.e);
    for (size_t i = 0; i < bytes.size(); ++i) for (int x = 0; x < 257; ++x) {
        if (!vp::begin()) continue;
        vp::describe("deep value of %zu bytes with byte %zu %s %d", bytes.size(), i, x < 256 ? "set to" : "missing and all after it", x);
        auto m = bytes; if (x < 256) m[i] = uint8_t(x); else m.resize(i);
        auto w = v; block b(m.data(), m.size(), 1); memory_input_archive ar(b.data(), b.n); ar(w.a, w.b, w.c, w.d, w.e);
        if (x == 256) VP_CHECK(ar.failed(), "truncated input is not reported");
        if (x == bytes[i]) VP_CHECK(!ar.failed() && ar.eof(), "unchanged input fails");
        vp::states(); vp::nontrivial();
    }
}
VP_SCENARIO(std_pointers) {
    int x; int *ps[] = {nullptr, &x, reinterpret_cast<int *>(intptr_t(-1)), reinterpret_cast<int *>(intptr_t(1))};
    for (int *p : ps) {
        if (!vp::begin()) continue;
        vp::describe("pointer %p", (void *)p);
        std::vector<uint8_t> b; memory_output_archive o(b); int *q = p; serialize_pointer(o, &q); VP_CHECK(q == p, "writing a pointer changed it");
        int *r = &x + 1; memory_input_archive in(b.data(), b.size()); serialize_pointer(in, &r);
        VP_CHECK(r == p && in.eof() && !in.failed(), "a pointer is not read back as written"); vp::states(); vp::nontrivial();
    }
}
