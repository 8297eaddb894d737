// Round trip machinery for serializable values. `fields` lists by hand every field a value
// has; `dump` turns it into bytes, so what a value is does not depend on the code under test.
#ifndef S11N_HPP
#define S11N_HPP
#include "vp.hpp"
#include "edyn/serialization/memory_archive.hpp"
#include "edyn/serialization/file_archive.hpp"
#include "edyn/serialization/math_s11n.hpp"
#include "edyn/serialization/std_s11n.hpp"
#include <array>
#include <cmath>
#include <cstring>
#include <limits>
#include <memory>
#include <string>
#include <vector>
#include <sys/stat.h>
#include <unistd.h>

namespace s11n {
using namespace edyn;

template<class V, class L> std::enable_if_t<std::is_arithmetic_v<L> || std::is_enum_v<L>> fields(V &v, L &l) { v.leaf(l); }
template<class V> void fields(V &v, vector3 &x) { v.leaf(x.x); v.leaf(x.y); v.leaf(x.z); }
template<class V> void fields(V &v, quaternion &x) { v.leaf(x.x); v.leaf(x.y); v.leaf(x.z); v.leaf(x.w); }
template<class V> void fields(V &v, matrix3x3 &x) { for (auto &r : x.row) fields(v, r); }
template<class V, class T, size_t N> void fields(V &v, std::array<T, N> &a) { for (auto &x : a) fields(v, x); }
template<class V, class T> void fields(V &v, std::vector<T> &a) { v.size(a.size()); for (auto &x : a) fields(v, x); }

struct dumper {
    std::string out;
    template<class L> void leaf(L &l) {
        char b[sizeof(L)]; std::memcpy(b, &l, sizeof(L));
        out.append(b, sizeof(L)); out += '|';
    }
    void size(size_t n) { out += "#" + std::to_string(n) + "{"; }
};

// Gives the leaves distinct values; `k` selects the pattern. Leaf `only` gets special value `spec`.
struct filler {
    unsigned k = 0; int only = -1; int spec = 0;
    int idx = 0; int specials = 0; // number of special values of leaf `only`
    void size(size_t) {}
    template<class L> void leaf(L &l) {
        int i = idx++;
        if constexpr(std::is_enum_v<L>) {
            using U = std::underlying_type_t<L>;
            if constexpr(sizeof(U) == 1) { if (i == only) { specials = 3; l = L(U(spec)); } else l = L(U((i + k) % 3)); }
            else {
                static const U sv[] = {0, 1, 0x80000000u, 0xfffffu, 0x100000u, 0xffffffffu, 0x01020304u};
                if (i == only) { specials = 7; l = L(sv[spec]); } else l = L(U(i * 7919u + k * 104729u + 1));
            }
        } else if constexpr(std::is_same_v<L, bool>) {
            if (i == only) { specials = 2; l = spec; } else l = (i + k) & 1;
        } else if constexpr(std::is_floating_point_v<L>) {
            using lim = std::numeric_limits<L>;
            static const L sv[] = {0, L(-0.0), 1, -1, lim::min(), lim::denorm_min(), lim::max(), lim::lowest(), lim::epsilon(), lim::infinity(), -lim::infinity(), lim::quiet_NaN(), L(1) / 3, L(16777217)};
            if (i == only) { specials = 14; l = sv[spec]; } else l = L(i + 1) * (k % 2 ? L(-1.0009765625) : L(1.0078125)) + L(k) * 1024;
        } else {
            using lim = std::numeric_limits<L>;
            static const L sv[] = {0, 1, lim::min(), lim::max(), L(lim::max() - 1), L(0x5a), L(lim::max() / 2 + 1), L(0x0102030405060708ull)};
            if (i == only) { specials = 8; l = sv[spec]; } else l = L(i * 37 + 11 + k * 101);
        }
    }
};

template<class T> std::string dump(const T &t) { dumper d; fields(d, const_cast<T &>(t)); return d.out; }

inline std::string scratch_dir() {
    static std::string dir = [] {
        char t[] = "/tmp/vp_s11n_XXXXXX"; std::string d = mkdtemp(t);
        static struct cleaner { std::string d; ~cleaner() { unlink((d + "/f.bin").c_str()); rmdir(d.c_str()); } } c;
        c.d = d; return d;
    }();
    return dir;
}

inline std::vector<uint8_t> slurp(const std::string &p) {
    std::ifstream f(p, std::ios::binary); return {std::istreambuf_iterator<char>(f), std::istreambuf_iterator<char>()};
}

// Exactly sized heap block at an odd offset: an overrun is caught by the address sanitizer.
struct block {
    size_t n; std::unique_ptr<uint8_t[]> p; size_t off;
    block(const uint8_t *b, size_t n, size_t off) : n(n), p(new uint8_t[n + off]), off(off) { if (n) std::memcpy(p.get() + off, b, n); }
    uint8_t *data() { return p.get() + off; }
};

struct options { bool file = false; bool prefixes = false; bool initializes = false; };

// `value` must survive; `stale` is what the target held before.
template<class T> void roundtrip(const char *name, T &value, T &stale, options o = {}, std::string expect = {}) {
    auto before = dump(value);
    if (expect.empty()) expect = before;
    std::vector<uint8_t> bytes;
    memory_output_archive out(bytes); out(value);
    VP_CHECK(dump(value) == before, "%s: writing it to an archive changed the value", name);
    vp::transitions(4);
    { // a second, const write appends the same bytes
        std::vector<uint8_t> again{0xab}; memory_output_archive o2(again); const T &cv = value; o2(cv);
        VP_CHECK(again.size() == bytes.size() + 1 && again[0] == 0xab && std::equal(bytes.begin(), bytes.end(), again.begin() + 1), "%s: writing a constant value after other data gives different bytes", name);
    }
    { // caller provided memory of exactly the right size
        std::vector<uint8_t> fill(bytes.size(), 0xcd); block b(fill.data(), fill.size(), 1);
        fixed_memory_output_archive fo(b.data(), b.n); fo(value);
        VP_CHECK(!fo.failed(), "%s: a buffer of exactly the size written by the growing archive is reported as too small", name);
        VP_CHECK(std::equal(bytes.begin(), bytes.end(), b.data()), "%s: fixed and growing memory archives write different bytes", name);
        VP_CHECK(dump(value) == before, "%s: writing it to fixed memory changed the value", name);
        char one = 1; fo(one);
        VP_CHECK(fo.failed(), "%s: writing beyond the end of fixed memory is not reported", name);
    }
    for (int target = 0; target < 2; ++target) {
        T got = target ? stale : T{};
        block b(bytes.data(), bytes.size(), target ? 1 : 0);
        memory_input_archive in(b.data(), b.n); in(got);
        VP_CHECK(!in.failed(), "%s: reading back what was written fails", name);
        VP_CHECK(in.eof(), "%s: reading does not consume exactly what was written", name);
        VP_CHECK(dump(got) == expect, "%s: the value read back differs from the one written (%s target)", name, target ? "previously used" : "fresh");
        char c; in(c);
        VP_CHECK(in.failed(), "%s: reading beyond the end is not reported", name);
    }
    { // two values back to back
        std::vector<uint8_t> two; memory_output_archive o2(two); o2(stale, value);
        T a{}, b{}; memory_input_archive in(two.data(), two.size()); in(a, b);
        VP_CHECK(!in.failed() && in.eof(), "%s: two values in sequence are not read back completely", name);
        VP_CHECK(dump(b) == expect, "%s: the second of two values in sequence differs", name);
    }
    if (o.file) {
        auto p = scratch_dir() + "/f.bin";
        { file_output_archive fo(p); fo(value); fo(value); fo.close(); }
        auto fb = slurp(p);
        VP_CHECK(fb.size() == 2 * bytes.size() && std::equal(bytes.begin(), bytes.end(), fb.begin()) && std::equal(bytes.begin(), bytes.end(), fb.begin() + bytes.size()), "%s: file and memory archives write different bytes", name);
        VP_CHECK(dump(value) == before, "%s: writing it to a file changed the value", name);
        file_input_archive fi(p); T a{}, b = stale; fi(a, b);
        VP_CHECK(dump(a) == expect && dump(b) == expect, "%s: the value read from a file differs", name);
        VP_CHECK(fi.tell_position() == fb.size(), "%s: reading a file does not consume what was written", name);
        fi.seek_position(bytes.size()); T c{}; fi(c);
        VP_CHECK(dump(c) == expect, "%s: the value read after seeking in a file differs", name);
        file_input_archive fj; fj.open(p); VP_CHECK(fj.is_file_open(), "a file that exists does not open"); T d{}; fj(d); fj.close();
        VP_CHECK(dump(d) == expect && !fj.is_file_open(), "%s: the value read from an opened file differs", name);
    }
    if (o.prefixes && !o.initializes) {
        for (size_t n = 0; n < bytes.size(); ++n) {
            T got = stale; block b(bytes.data(), n, n & 1);
            memory_input_archive in(b.data(), b.n); in(got);
            VP_CHECK(in.failed(), "%s: input cut off after %zu of %zu bytes is not reported", name, n, bytes.size());
            VP_CHECK(n || !bytes.size() || in.eof(), "%s: empty input does not report its end", name);
            block f(bytes.data(), n, 1); std::memset(f.data(), 0xee, n);
            fixed_memory_output_archive fo(f.data(), n); fo(value);
            VP_CHECK(fo.failed(), "%s: fixed memory of %zu bytes for %zu is not reported as too small", name, n, bytes.size());
            vp::transitions(2);
        }
    }
    vp::validated();
}

template<class T> int count_leaves(T t) { filler f; fields(f, t); return f.idx; }

// All patterns, then every leaf through all of its special values.
template<class T> void enumerate(const char *name, const T &proto = T{}, bool initializes = false) {
    int n = count_leaves(proto);
    T stale = proto; { filler f; f.k = 77; fields(f, stale); }
    int patterns = vp::thorough() ? 24 : 6;
    for (int k = 0; k < patterns; ++k) {
        if (!vp::begin()) continue;
        vp::describe("%s, all %d fields filled with pattern %d", name, n, k);
        T t = proto; filler f; f.k = k; fields(f, t);
        options o; o.file = k < 2; o.prefixes = k < 2; o.initializes = initializes;
        roundtrip(name, t, stale, o); vp::states(); if (n) vp::nontrivial();
    }
    for (int i = 0; i < n; ++i) for (int s = 0, m = 1; s < m; ++s) {
        T t = proto; filler f; f.k = 1; f.only = i; f.spec = s; fields(f, t); m = f.specials;
        if (!vp::begin()) continue;
        vp::describe("%s, field %d with special value %d, other fields distinct", name, i, s);
        roundtrip(name, t, stale, options{false, vp::thorough() && s == 0, initializes}); vp::states(); vp::nontrivial();
    }
}
}
#endif
