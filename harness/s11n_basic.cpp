// Round trip of the serializable values that need nothing but edyn's own headers.
#include "s11n.hpp"
#include "edyn/comp/aabb.hpp"
#include "edyn/comp/angvel.hpp"
#include "edyn/comp/center_of_mass.hpp"
#include "edyn/comp/collision_filter.hpp"
#include "edyn/comp/gravity.hpp"
#include "edyn/comp/inertia.hpp"
#include "edyn/comp/linvel.hpp"
#include "edyn/comp/mass.hpp"
#include "edyn/comp/material.hpp"
#include "edyn/comp/orientation.hpp"
#include "edyn/comp/position.hpp"
#include "edyn/comp/roll_direction.hpp"
#include "edyn/comp/shape_index.hpp"
#include "edyn/comp/action_list.hpp"
#include "edyn/comp/tag.hpp"
#include "edyn/math/coordinate_axis.hpp"
#include "edyn/collision/contact_normal_attachment.hpp"
#include "edyn/networking/packet/set_aabb_of_interest.hpp"
#include "edyn/networking/packet/set_playout_delay.hpp"
#include "edyn/networking/packet/time_request.hpp"
#include "edyn/networking/packet/time_response.hpp"
#include "edyn/networking/comp/action_history.hpp"
#include "edyn/shapes/box_shape.hpp"
#include "edyn/shapes/sphere_shape.hpp"
#include "edyn/shapes/cylinder_shape.hpp"
#include "edyn/shapes/capsule_shape.hpp"
#include "edyn/shapes/plane_shape.hpp"

namespace s11n {
template<class V> void fields(V &v, AABB &x) { fields(v, x.min); fields(v, x.max); }
template<class V> void fields(V &v, collision_filter &x) { v.leaf(x.group); v.leaf(x.mask); }
#define AS_BASE(T, B) template<class V> void fields(V &v, T &x) { fields(v, static_cast<B &>(x)); }
AS_BASE(angvel, vector3) AS_BASE(linvel, vector3) AS_BASE(center_of_mass, vector3) AS_BASE(gravity, vector3)
AS_BASE(position, vector3) AS_BASE(roll_direction, vector3) AS_BASE(orientation, quaternion)
AS_BASE(inertia, matrix3x3) AS_BASE(inertia_inv, matrix3x3) AS_BASE(inertia_world_inv, matrix3x3)
template<class V> void fields(V &v, mass &x) { v.leaf(x.s); }
template<class V> void fields(V &v, mass_inv &x) { v.leaf(x.s); }
template<class V> void fields(V &v, material &x) {
    v.leaf(x.restitution); v.leaf(x.friction); v.leaf(x.spin_friction); v.leaf(x.roll_friction);
    v.leaf(x.stiffness); v.leaf(x.damping); v.leaf(x.id);
}
template<class V> void fields(V &v, shape_index &x) { v.leaf(x.value); }
template<class V> void fields(V &v, packet::set_aabb_of_interest &x) { fields(v, x.min); fields(v, x.max); }
template<class V> void fields(V &v, packet::set_playout_delay &x) { v.leaf(x.value); }
template<class V> void fields(V &v, packet::time_request &x) { v.leaf(x.id); }
template<class V> void fields(V &v, packet::time_response &x) { v.leaf(x.id); v.leaf(x.timestamp); }
template<class V> void fields(V &v, box_shape &x) { fields(v, x.half_extents); }
template<class V> void fields(V &v, sphere_shape &x) { v.leaf(x.radius); }
template<class V> void fields(V &v, cylinder_shape &x) { v.leaf(x.radius); v.leaf(x.half_length); v.leaf(x.axis); }
template<class V> void fields(V &v, capsule_shape &x) { v.leaf(x.radius); v.leaf(x.half_length); v.leaf(x.axis); }
template<class V> void fields(V &v, plane_shape &x) { fields(v, x.normal); v.leaf(x.constant); }

struct action { uint16_t what; vector3 dir; bool on; };
template<class Archive> void serialize(Archive &archive, action &a) { archive(a.what); archive(a.dir); archive(a.on); }
template<class V> void fields(V &v, action &x) { v.leaf(x.what); fields(v, x.dir); v.leaf(x.on); }
template<class V, class A> void fields(V &v, action_list<A> &x) { fields(v, x.actions); }
template<class V> void fields(V &v, action_history &x) {
    v.size(x.entries.size());
    for (auto &e : x.entries) { v.leaf(e.timestamp); v.leaf(e.action_index); fields(v, e.data); }
}
// The dynamic part of the two lists with an 8 bit size: all sizes around its limit.
template<class T, class F> void lengths(const char *name, F make) {
    T stale = make(3); { filler f; f.k = 9; fields(f, stale); }
    for (size_t n : {0, 1, 2, 3, 7, 8, 127, 128, 254, 255, 256, 257, 300, 511, 512}) {
        if (!vp::begin()) continue;
        vp::describe("%s of %zu entries", name, n);
        T t = make(n); filler f; f.k = unsigned(n); fields(f, t);
        T capped = t; auto &v = [&]() -> auto & { if constexpr(std::is_same_v<T, action_history>) return capped.entries; else return capped.actions; }();
        if (v.size() > 255) v.erase(v.begin() + 255, v.end());
        roundtrip(name, t, stale, options{n < 4, n < 9}, dump(capped)); vp::states(); vp::nontrivial();
    }
}
}
using namespace s11n;

VP_SCENARIO(s11n_fundamental) {
#define ENUM(T) enumerate<T>(#T)
    ENUM(bool); ENUM(char); ENUM(signed char); ENUM(uint8_t); ENUM(int16_t); ENUM(uint16_t); ENUM(int32_t); ENUM(uint32_t);
    ENUM(int64_t); ENUM(uint64_t); ENUM(float); ENUM(double); ENUM(size_t); ENUM(wchar_t);
    ENUM(coordinate_axis); ENUM(contact_normal_attachment);
}
VP_SCENARIO(s11n_math) { ENUM(vector3); ENUM(quaternion); ENUM(matrix3x3); ENUM(AABB); }
VP_SCENARIO(s11n_components) {
    ENUM(angvel); ENUM(linvel); ENUM(center_of_mass); ENUM(gravity); ENUM(position); ENUM(roll_direction); ENUM(orientation);
    ENUM(inertia); ENUM(inertia_inv); ENUM(inertia_world_inv); ENUM(mass); ENUM(mass_inv); ENUM(material); ENUM(shape_index);
    ENUM(collision_filter);
}
VP_SCENARIO(s11n_shapes) { ENUM(box_shape); ENUM(sphere_shape); ENUM(cylinder_shape); ENUM(capsule_shape); ENUM(plane_shape); }
VP_SCENARIO(s11n_packets) { ENUM(packet::set_aabb_of_interest); ENUM(packet::set_playout_delay); ENUM(packet::time_request); ENUM(packet::time_response); }
VP_SCENARIO(s11n_actions) {
    lengths<action_list<action>>("action_list", [](size_t n) { action_list<action> l; l.actions.resize(n); return l; });
    lengths<action_history>("action_history", [](size_t n) {
        action_history h; h.entries.resize(n);
        for (size_t i = 0; i < n; ++i) h.entries[i].data.resize(i % 5); return h;
    });
}
// Tags carry no data, and several values in one call are written in order.
VP_SCENARIO(s11n_sequences) {
    for (unsigned mask = 0; mask < 81; ++mask) {
        if (!vp::begin()) continue;
        vp::describe("sequence of four values, kinds base-3 %u", mask);
        std::vector<uint8_t> buf; memory_output_archive out(buf);
        std::string want; size_t expect = 0; unsigned m = mask;
        for (int i = 0; i < 4; ++i, m /= 3) {
            if (m % 3 == 0) { vector3 v{scalar(i), scalar(i + 1), scalar(-i)}; out(v); expect += 3 * sizeof(scalar); want += dump(v); }
            else if (m % 3 == 1) { uint8_t b = uint8_t(200 + i); bool f = i & 1; out(b, f); expect += 2; want += dump(b) + dump(f); }
            else { dynamic_tag t; out(t); rigidbody_tag t2; out(t, t2); }
        }
        VP_CHECK(buf.size() == expect, "a sequence of values takes %zu bytes instead of %zu", buf.size(), expect);
        memory_input_archive in(buf.data(), buf.size()); std::string got; m = mask;
        for (int i = 0; i < 4; ++i, m /= 3) {
            if (m % 3 == 0) { vector3 v; in(v); got += dump(v); }
            else if (m % 3 == 1) { uint8_t b; bool f; in(b, f); got += dump(b) + dump(f); }
            else { dynamic_tag t; in(t); }
        }
        VP_CHECK(!in.failed() && in.eof() && got == want, "a sequence of values is not read back as written");
        vp::states(); vp::nontrivial(); vp::transitions(4);
    }
}
// Every byte string up to a length as input: no failure goes unnoticed, nothing beyond the
// input is touched, and a boolean is one of its two values.
template<class T> static void any_bytes(const char *name, size_t fixed, int base, int maxlen) {
    static const uint8_t alpha[] = {0, 1, 2, 0x7f, 0x80, 0xff};
    for (int n = 0; n <= maxlen; ++n) {
        size_t total = 1; for (int i = 0; i < n; ++i) total *= base;
        for (size_t c = 0; c < total; ++c) {
            if (!vp::begin()) continue;
            vp::describe("%s from arbitrary input of %d bytes, number %zu", name, n, c);
            std::vector<uint8_t> in(n); size_t cc = c; for (auto &b : in) { b = base == 256 ? uint8_t(cc % 256) : alpha[cc % base]; cc /= base; }
            T t{}; block b(in.data(), in.size(), 1); memory_input_archive ar(b.data(), b.n); ar(t);
            VP_CHECK(ar.failed() == (size_t(n) < fixed), "%s: %d input bytes are reported as %s", name, n, ar.failed() ? "too few" : "enough");
            if (!ar.failed()) VP_CHECK(ar.eof() == (size_t(n) == fixed), "%s: end of input is wrong", name);
            if constexpr(std::is_same_v<T, bool>) if (n) VP_CHECK((t ? 1 : 0) == (in[0] ? 1 : 0), "a boolean read from byte %d is wrong", in[0]);
            vp::states(); if (n) vp::nontrivial();
        }
    }
}
// Sequences of reads of various sizes from inputs of every length: from the first failure on nothing is read any more.
VP_SCENARIO(s11n_after_failure) {
    const size_t sz[] = {1, 2, 4, 8};
    for (int n = 0; n <= 12; ++n) for (int c = 0; c < 4 * 4 * 4 * 4; ++c) for (int rd = 0; rd < 2; ++rd) {
        if (!vp::begin()) continue;
        vp::describe("four reads, sizes base-4 %d, from %d bytes", c, n);
        std::vector<uint8_t> in(n); for (int i = 0; i < n; ++i) in[i] = uint8_t(i + 1);
        block b(in.data(), in.size(), 1); memory_input_archive ar(b.data(), b.n); size_t at = 0; bool failed = false; int k = c;
        std::vector<uint8_t> obuf(n, 0xee); fixed_memory_output_archive out(obuf.data(), obuf.size());
        for (int i = 0; i < 4; ++i, k /= 4) {
            size_t s = sz[k % 4]; uint64_t want = 0xabababababababab, got = want;
            if (!failed && at + s <= size_t(n)) { memcpy(&want, in.data() + at, s); at += s; } else failed = true;
            if (rd) { uint64_t v = want;   // the same for writing to a buffer of fixed size
                if (s == 1) { uint8_t x = uint8_t(v); out(x); } else if (s == 2) { uint16_t x = uint16_t(v); out(x); } else if (s == 4) { uint32_t x = uint32_t(v); out(x); } else out(v);
                VP_CHECK(out.failed() == failed, "write %d of %zu bytes is reported as %s", i, s, out.failed() ? "failed" : "done"); continue; }
            if (s == 1) { uint8_t x = 0xab; ar(x); memcpy(&got, &x, 1); } else if (s == 2) { uint16_t x = 0xabab; ar(x); memcpy(&got, &x, 2); } else if (s == 4) { uint32_t x = 0xabababab; ar(x); memcpy(&got, &x, 4); } else ar(got);
            VP_CHECK(ar.failed() == failed, "read %d of %zu bytes is reported as %s", i, s, ar.failed() ? "failed" : "done");
            VP_CHECK(got == want, "read %d of %zu bytes after %s yields another value", i, s, failed ? "a failure" : "success");
            if (!failed) VP_CHECK(ar.eof() == (at == size_t(n)), "end of input is wrong");
        }
        if (rd) for (size_t i = 0; i < size_t(n); ++i) VP_CHECK(obuf[i] == (i < at ? in[i] : 0xee), "byte %zu of the buffer written to is %u", i, obuf[i]);
        vp::states(); vp::transitions(4); vp::nontrivial(failed);
    }
}
VP_SCENARIO(s11n_any_input) {
    any_bytes<bool>("bool", 1, 256, 1); any_bytes<uint16_t>("uint16_t", 2, 256, 2); any_bytes<uint32_t>("uint32_t", 4, 6, 5);
    any_bytes<float>("float", 4, 6, 5); any_bytes<cylinder_shape>("cylinder_shape", 2 * sizeof(scalar) + 1, 2, 12);
    any_bytes<coordinate_axis>("coordinate_axis", 1, 256, 1);
    any_bytes<packet::time_response>("time_response", 12, 2, 13);
}
