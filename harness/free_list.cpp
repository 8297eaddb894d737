// The slot container against a reference map, over all operation sequences.
#include "vp.hpp"
#include "edyn/core/free_list.hpp"
#include <algorithm>
#include <limits>
#include <map>
#include <string>
#include <vector>
using namespace edyn;

namespace {
struct elem {
    int value = -1;
    std::vector<int> heavy;   // detects copies of stale storage
    size_t next = std::numeric_limits<size_t>::max();
};
struct elem32 { int value = -1; std::vector<int> heavy; uint32_t next = std::numeric_limits<uint32_t>::max(); };
struct elem8 { int value = -1; std::vector<int> heavy; uint8_t next = 255; };

template<typename E, typename I, I null>
struct runner {
    using list = free_list<E, I, null>;
    using model = std::map<I, int>;
    std::string path;
    size_t cap;
    bool bulked = false;

    void verify(const list &l, const model &m) {
        vp::states();
        VP_CHECK(l.count() == m.size(), "count() is %zu, %zu elements are live", size_t(l.count()), m.size());
        VP_CHECK(l.empty() == m.empty(), "empty() is wrong with %zu live elements", m.size());
        for (auto &kv : m) {
            VP_CHECK(size_t(kv.first) < l.range(), "live index %zu is outside range() %zu", size_t(kv.first), size_t(l.range()));
            auto &e = l[kv.first];
            VP_CHECK(e.value == kv.second && e.heavy.size() == 2 && e.heavy[1] == kv.second,
                     "element at index %zu changed: expected %d, found %d", size_t(kv.first), kv.second, e.value);
        }
        for (size_t i = 0; i < l.range(); ++i) if (!m.count(I(i)))
            VP_CHECK(l[I(i)].value == -1 && l[I(i)].heavy.empty(), "slot %zu holds no live element but shows value %d", i, l[I(i)].value);
    }

    static E val(int v) { E e; e.value = v; e.heavy = {0, v}; return e; }

    void insert(list &l, model &m, int v) {
        auto idx = l.insert(val(v));
        VP_CHECK(!m.count(idx), "insert returned index %zu, which is already in use", size_t(idx));
        m[idx] = v;
    }

    void explore(const list &l, const model &m, int depth, int next) {
        ++vp::st().progress;
        verify(l, m);
        if (depth == 0) return;
        auto len = path.size();
        vp::transitions();
        if (m.size() < cap) { path += " insert"; list l2 = l; model m2 = m; insert(l2, m2, next); explore(l2, m2, depth - 1, next + 1); path.resize(len); }
        // Enough insertions to use up every free slot and grow past the end; once per sequence.
        if (!bulked && m.size() + 17 <= cap) {
            vp::transitions();
            path += " insert*17"; bulked = true;
            list l2 = l; model m2 = m;
            for (int k = 0; k < 17; ++k) insert(l2, m2, next + k);
            explore(l2, m2, depth - 1, next + 17);
            path.resize(len); bulked = false;
        }
        // Removal of the first, second, middle and last live element.
        std::vector<I> ks;
        for (auto &kv : m) ks.push_back(kv.first);
        std::vector<size_t> pos;
        for (size_t p : {size_t(0), size_t(1), ks.size() / 2, ks.size() - 1}) if (p < ks.size() && std::find(pos.begin(), pos.end(), p) == pos.end()) pos.push_back(p);
        for (size_t p : pos) {
            vp::transitions();
            path += " remove(" + std::to_string(size_t(ks[p])) + ")";
            list l2 = l; model m2 = m; l2.remove(ks[p]); m2.erase(ks[p]);
            explore(l2, m2, depth - 1, next); path.resize(len);
        }
        vp::transitions();
        { path += " clear"; list l2 = l; l2.clear(); explore(l2, model{}, depth - 1, next); path.resize(len); }
    }

    void run(std::initializer_list<int> prefill, int depth, size_t cap_) {
        cap = cap_;
        for (int n : prefill) {
            if (!vp::begin()) continue;
            path = "prefill " + std::to_string(n) + ":";
            vp::describer() = [this] { return path; };
            list l; model m;
            for (int i = 0; i < n; ++i) insert(l, m, 1000 + i);
            explore(l, m, depth, 1);
            vp::describer() = nullptr;
        }
    }
};
}

VP_SCENARIO(size_t_index) {
    runner<elem, size_t, std::numeric_limits<size_t>::max()> r;
    int d = vp::thorough() ? 7 : 5;
    r.run({0, 1, 2, 3, 14, 15, 16, 17, 30, 31, 32, 33}, d, 1000);
}
VP_SCENARIO(uint32_index) {
    runner<elem32, uint32_t, std::numeric_limits<uint32_t>::max()> r;
    int d = vp::thorough() ? 6 : 5;
    r.run({0, 15, 16, 31, 32}, d, 1000);
}
VP_SCENARIO(uint8_index) {
    runner<elem8, uint8_t, 255> r;
    int d = vp::thorough() ? 5 : 4;
    r.run({0, 15, 16, 127, 128, 223, 224}, d, 239);
}
