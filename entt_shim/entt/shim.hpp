// A stand-in for the subset of EnTT 3.15 that edyn uses, written for the checks
// in /verif because the library itself is not available in this sandbox. It
// follows the documented behaviour of EnTT: 20-bit indices with 12-bit versions
// that are recycled last in, first out, sparse sets which are iterated from the
// newest element to the oldest, swap-and-pop (or in-place) deletion, signals
// which are published from the newest listener to the oldest and pools that are
// emptied from the newest to the oldest when an entity is destroyed.
#ifndef VP_ENTT_SHIM_HPP
#define VP_ENTT_SHIM_HPP

#include <algorithm>
#include <array>
#include <cassert>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <functional>
#include <iterator>
#include <limits>
#include <map>
#include <memory>
#include <new>
#include <set>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <typeinfo>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>

#ifndef ENTT_ASSERT
#define ENTT_ASSERT(cond, msg) assert(cond)
#endif

namespace entt {

using id_type = std::uint32_t;

// ---------------------------------------------------------------- entities
enum class entity : std::uint32_t {};

namespace shim {
    inline constexpr std::uint32_t entity_mask = 0xFFFFFu;
    inline constexpr std::uint32_t version_mask = 0xFFFu;
    inline constexpr unsigned entity_bits = 20;
    constexpr std::uint32_t idx(entity e) { return static_cast<std::uint32_t>(e) & entity_mask; }
    constexpr std::uint32_t ver(entity e) { return static_cast<std::uint32_t>(e) >> entity_bits; }
    constexpr entity make(std::uint32_t i, std::uint32_t v) {
        return entity{(i & entity_mask) | ((v & version_mask) << entity_bits)};
    }
    constexpr entity next_version(entity e) {
        auto v = ver(e) + 1;
        return make(idx(e), v + (v == version_mask));
    }
}

template<typename E>
constexpr std::underlying_type_t<E> to_integral(E e) noexcept { return static_cast<std::underlying_type_t<E>>(e); }
constexpr std::uint32_t to_entity(entity e) noexcept { return shim::idx(e); }
constexpr std::uint32_t to_version(entity e) noexcept { return shim::ver(e); }

template<typename E>
struct entt_traits {
    using value_type = entity;
    using entity_type = std::uint32_t;
    using version_type = std::uint16_t;
    static constexpr entity_type to_integral(entity e) { return static_cast<entity_type>(e); }
    static constexpr entity_type to_entity(entity e) { return shim::idx(e); }
    static constexpr version_type to_version(entity e) { return static_cast<version_type>(shim::ver(e)); }
    static constexpr entity construct(entity_type i, version_type v) { return shim::make(i, v); }
};

struct null_t {
    constexpr operator entity() const noexcept { return shim::make(shim::entity_mask, shim::version_mask); }
    constexpr bool operator==(null_t) const noexcept { return true; }
    constexpr bool operator!=(null_t) const noexcept { return false; }
    constexpr bool operator==(entity e) const noexcept { return shim::idx(e) == shim::entity_mask; }
    constexpr bool operator!=(entity e) const noexcept { return !(*this == e); }
};
constexpr bool operator==(entity e, null_t n) noexcept { return n == e; }
constexpr bool operator!=(entity e, null_t n) noexcept { return n != e; }
inline constexpr null_t null{};

struct tombstone_t {
    constexpr operator entity() const noexcept { return shim::make(shim::entity_mask, shim::version_mask); }
    constexpr bool operator==(tombstone_t) const noexcept { return true; }
    constexpr bool operator!=(tombstone_t) const noexcept { return false; }
    constexpr bool operator==(entity e) const noexcept { return shim::ver(e) == shim::version_mask; }
    constexpr bool operator!=(entity e) const noexcept { return !(*this == e); }
};
constexpr bool operator==(entity e, tombstone_t n) noexcept { return n == e; }
constexpr bool operator!=(entity e, tombstone_t n) noexcept { return n != e; }
inline constexpr tombstone_t tombstone{};

// ---------------------------------------------------------------- core
struct identity {
    template<typename T> constexpr T &&operator()(T &&t) const noexcept { return std::forward<T>(t); }
};

constexpr id_type shim_fnv(const char *s, std::size_t n) {
    id_type h = 2166136261u;
    for (std::size_t i = 0; i < n; ++i) { h ^= static_cast<id_type>(static_cast<unsigned char>(s[i])); h *= 16777619u; }
    return h;
}

class hashed_string {
public:
    constexpr hashed_string() : m_str(nullptr), m_len(0), m_hash(0) {}
    constexpr hashed_string(const char *s, std::size_t n) : m_str(s), m_len(n), m_hash(shim_fnv(s, n)) {}
    template<std::size_t N>
    constexpr hashed_string(const char (&s)[N]) : hashed_string(s, N - 1) {}
    static constexpr id_type value(const char *s, std::size_t n) { return shim_fnv(s, n); }
    constexpr id_type value() const { return m_hash; }
    constexpr const char *data() const { return m_str; }
    constexpr std::size_t size() const { return m_len; }
    constexpr operator id_type() const { return m_hash; }
private:
    const char *m_str;
    std::size_t m_len;
    id_type m_hash;
};
inline namespace literals {
    constexpr hashed_string operator""_hs(const char *s, std::size_t n) { return hashed_string{s, n}; }
}

template<typename T>
struct type_hash {
    static constexpr id_type value() noexcept {
        const char *s = __PRETTY_FUNCTION__;
        std::size_t n = 0;
        while (s[n]) ++n;
        return shim_fnv(s, n);
    }
    constexpr operator id_type() const noexcept { return value(); }
};

struct type_info {
    constexpr type_info(id_type h, const char *n) : m_hash(h), m_name(n) {}
    constexpr id_type hash() const { return m_hash; }
    constexpr id_type index() const { return m_hash; }
    std::string_view name() const { return m_name; }
private:
    id_type m_hash;
    const char *m_name;
};
inline bool operator==(const type_info &a, const type_info &b) { return a.hash() == b.hash(); }
inline bool operator!=(const type_info &a, const type_info &b) { return a.hash() != b.hash(); }
inline bool operator<(const type_info &a, const type_info &b) { return a.hash() < b.hash(); }

template<typename T>
const type_info &type_id() noexcept {
    using U = std::remove_cv_t<std::remove_reference_t<T>>;
    static const type_info info{type_hash<U>::value(), typeid(U).name()};
    return info;
}
template<typename T>
const type_info &type_id(T &&) noexcept { return type_id<T>(); }

template<typename... T> struct type_list { static constexpr auto size = sizeof...(T); };

namespace shim {
    template<typename T, typename... A>
    T *construct(void *where, A &&...args) {
        if constexpr (std::is_aggregate_v<T> && (sizeof...(A) != 0u || !std::is_default_constructible_v<T>)) {
            return new (where) T{std::forward<A>(args)...};
        } else {
            return new (where) T(std::forward<A>(args)...);
        }
    }
}

class any {
    struct ops { void (*destroy)(void *); void *(*clone)(const void *); const type_info *info; };
    template<typename T> static const ops *ops_of() {
        static const ops o{
            [](void *p) { delete static_cast<T *>(p); },
            [](const void *p) -> void * {
                if constexpr (std::is_copy_constructible_v<T>) return new T(*static_cast<const T *>(p));
                else { (void)p; return nullptr; }
            },
            &type_id<T>()};
        return &o;
    }
public:
    any() = default;
    template<typename T, typename... A>
    explicit any(std::in_place_type_t<T>, A &&...args) { set<T>(std::forward<A>(args)...); }
    template<typename T, typename = std::enable_if_t<!std::is_same_v<std::decay_t<T>, any>>>
    any(T &&v) { set<std::decay_t<T>>(std::forward<T>(v)); }
    any(const any &o) : m_ptr(o.m_ops ? o.m_ops->clone(o.m_ptr) : nullptr), m_ops(m_ptr ? o.m_ops : nullptr) {}
    any(any &&o) noexcept : m_ptr(std::exchange(o.m_ptr, nullptr)), m_ops(std::exchange(o.m_ops, nullptr)) {}
    any &operator=(any o) noexcept { std::swap(m_ptr, o.m_ptr); std::swap(m_ops, o.m_ops); return *this; }
    ~any() { reset(); }
    template<typename T, typename... A> void emplace(A &&...args) { reset(); set<T>(std::forward<A>(args)...); }
    void reset() { if (m_ops) m_ops->destroy(m_ptr); m_ptr = nullptr; m_ops = nullptr; }
    const type_info &type() const { return m_ops ? *m_ops->info : type_id<void>(); }
    explicit operator bool() const { return m_ptr != nullptr; }
    void *data() { return m_ptr; }
    const void *data() const { return m_ptr; }
private:
    template<typename T, typename... A> void set(A &&...args) {
        if constexpr (std::is_aggregate_v<T> && (sizeof...(A) != 0u || !std::is_default_constructible_v<T>)) {
            m_ptr = new T{std::forward<A>(args)...};
        } else {
            m_ptr = new T(std::forward<A>(args)...);
        }
        m_ops = ops_of<T>();
    }
    void *m_ptr = nullptr;
    const ops *m_ops = nullptr;
};

template<typename T>
std::remove_const_t<T> *any_cast(any *a) noexcept {
    return a && a->type() == type_id<T>() ? static_cast<std::remove_const_t<T> *>(a->data()) : nullptr;
}
template<typename T>
const T *any_cast(const any *a) noexcept {
    return a && a->type() == type_id<T>() ? static_cast<const T *>(a->data()) : nullptr;
}
template<typename T>
T any_cast(any &a) {
    auto *p = any_cast<std::remove_cv_t<std::remove_reference_t<T>>>(&a);
    ENTT_ASSERT(p, "invalid any cast");
    return static_cast<T>(*p);
}
template<typename T>
T any_cast(const any &a) {
    auto *p = any_cast<std::remove_cv_t<std::remove_reference_t<T>>>(&a);
    ENTT_ASSERT(p, "invalid any cast");
    return static_cast<T>(*p);
}

// Keeps the order of insertion, like the packed array of EnTT's map.
template<typename K, typename V, typename H = std::hash<K>, typename Eq = std::equal_to<K>>
class dense_map {
public:
    using value_type = std::pair<const K, V>;
    using iterator = typename std::vector<std::pair<K, V>>::iterator;
    using const_iterator = typename std::vector<std::pair<K, V>>::const_iterator;
    iterator begin() { return m.begin(); }
    iterator end() { return m.end(); }
    const_iterator begin() const { return m.begin(); }
    const_iterator end() const { return m.end(); }
    const_iterator cbegin() const { return m.begin(); }
    const_iterator cend() const { return m.end(); }
    std::size_t size() const { return m.size(); }
    bool empty() const { return m.empty(); }
    void clear() { m.clear(); }
    void reserve(std::size_t n) { m.reserve(n); }
    iterator find(const K &k) { return std::find_if(m.begin(), m.end(), [&](auto &p) { return p.first == k; }); }
    const_iterator find(const K &k) const { return std::find_if(m.begin(), m.end(), [&](auto &p) { return p.first == k; }); }
    bool contains(const K &k) const { return find(k) != end(); }
    std::size_t count(const K &k) const { return contains(k); }
    V &operator[](const K &k) {
        auto it = find(k);
        if (it != end()) return it->second;
        m.emplace_back(k, V{});
        return m.back().second;
    }
    V &at(const K &k) { auto it = find(k); ENTT_ASSERT(it != end(), "invalid key"); return it->second; }
    const V &at(const K &k) const { auto it = find(k); ENTT_ASSERT(it != end(), "invalid key"); return it->second; }
    template<typename... A>
    std::pair<iterator, bool> try_emplace(const K &k, A &&...args) {
        auto it = find(k);
        if (it != end()) return {it, false};
        m.emplace_back(std::piecewise_construct, std::forward_as_tuple(k), std::forward_as_tuple(std::forward<A>(args)...));
        return {std::prev(m.end()), true};
    }
    template<typename A>
    std::pair<iterator, bool> emplace(const K &k, A &&a) { return try_emplace(k, std::forward<A>(a)); }
    template<typename A>
    std::pair<iterator, bool> insert_or_assign(const K &k, A &&a) {
        auto r = try_emplace(k, V{});
        r.first->second = std::forward<A>(a);
        return r;
    }
    std::size_t erase(const K &k) {
        auto it = find(k);
        if (it == end()) return 0;
        *it = std::move(m.back());
        m.pop_back();
        return 1;
    }
    iterator erase(const_iterator pos) {
        auto i = pos - m.cbegin();
        m[i] = std::move(m.back());
        m.pop_back();
        return m.begin() + i;
    }
private:
    std::vector<std::pair<K, V>> m;
};

// ---------------------------------------------------------------- delegates
template<auto> struct connect_arg_t { explicit connect_arg_t() = default; };
template<auto F> inline constexpr connect_arg_t<F> connect_arg{};

template<typename> class delegate;

namespace shim {
    template<auto F, typename Ret, typename Tuple, typename Seq, typename... Pre> struct invocable_seq;
    template<auto F, typename Ret, typename Tuple, std::size_t... I, typename... Pre>
    struct invocable_seq<F, Ret, Tuple, std::index_sequence<I...>, Pre...>
        : std::is_invocable_r<Ret, decltype(F), Pre..., std::tuple_element_t<I, Tuple>...> {};

    template<std::size_t Off, typename Seq> struct shift_seq;
    template<std::size_t Off, std::size_t... I>
    struct shift_seq<Off, std::index_sequence<I...>> { using type = std::index_sequence<(I + Off)...>; };

    // The longest list of leading (otherwise trailing) arguments the candidate takes.
    template<auto F, typename Ret, typename Tuple, std::size_t N, typename... Pre>
    constexpr auto pick_args() {
        constexpr auto total = std::tuple_size_v<Tuple>;
        using head = std::make_index_sequence<N>;
        using tail = typename shift_seq<total - N, head>::type;
        if constexpr (invocable_seq<F, Ret, Tuple, head, Pre...>::value) return head{};
        else if constexpr (invocable_seq<F, Ret, Tuple, tail, Pre...>::value) return tail{};
        else {
            static_assert(N > 0, "candidate cannot be called");
            return pick_args<F, Ret, Tuple, N - 1, Pre...>();
        }
    }

    template<typename T> struct fn_ptr;
    template<typename R, typename... A> struct fn_ptr<R (*)(A...)> { using ret = R; template<typename... X> using cut = R(X...);
        using args = type_list<A...>; };
    template<typename R, typename C, typename... A> struct fn_ptr<R (C::*)(A...)> { using ret = R; using args = type_list<A...>; };
    template<typename R, typename C, typename... A> struct fn_ptr<R (C::*)(A...) const> { using ret = R; using args = type_list<A...>; };
    template<typename R, typename C, typename... A> struct fn_ptr<R (C::*)(A...) noexcept> { using ret = R; using args = type_list<A...>; };
    template<typename R, typename C, typename... A> struct fn_ptr<R (C::*)(A...) const noexcept> { using ret = R; using args = type_list<A...>; };

    template<typename R, typename L> struct to_sig;
    template<typename R, typename... A> struct to_sig<R, type_list<A...>> { using type = R(A...); };
    template<typename L> struct drop_first;
    template<typename F, typename... A> struct drop_first<type_list<F, A...>> { using type = type_list<A...>; };

    template<auto F, bool Payload>
    struct deduce {
        using fp = fn_ptr<decltype(F)>;
        using list = typename std::conditional_t<Payload && !std::is_member_pointer_v<decltype(F)>,
            drop_first<typename fp::args>, std::common_type<typename fp::args>>::type;
        using type = typename to_sig<typename fp::ret, list>::type;
    };
}

template<typename Ret, typename... Args>
class delegate<Ret(Args...)> {
    using tuple_t = std::tuple<Args...>;
public:
    using function_type = Ret(const void *, Args...);
    using result_type = Ret;
    using type = Ret(Args...);

    delegate() noexcept = default;
    template<auto F> delegate(connect_arg_t<F>) noexcept { connect<F>(); }
    template<auto F, typename T> delegate(connect_arg_t<F>, T &&instance) noexcept { connect<F>(std::forward<T>(instance)); }
    delegate(function_type *f, const void *payload = nullptr) noexcept : m_instance(payload), m_fn(f) {}

    template<auto F>
    void connect() noexcept {
        m_instance = nullptr;
        m_fn = wrap<F>(shim::pick_args<F, Ret, tuple_t, sizeof...(Args)>());
    }
    template<auto F, typename T>
    void connect(T &instance) noexcept {
        m_instance = &instance;
        m_fn = wrap_ref<F, T>(shim::pick_args<F, Ret, tuple_t, sizeof...(Args), T &>());
    }
    template<auto F, typename T>
    void connect(T *instance) noexcept {
        m_instance = instance;
        m_fn = wrap_ptr<F, T>(shim::pick_args<F, Ret, tuple_t, sizeof...(Args), T *>());
    }
    void connect(function_type *f, const void *payload = nullptr) noexcept { m_instance = payload; m_fn = f; }
    void reset() noexcept { m_instance = nullptr; m_fn = nullptr; }
    const void *data() const noexcept { return m_instance; }
    Ret operator()(Args... args) const {
        ENTT_ASSERT(m_fn, "uninitialized delegate");
        return m_fn(m_instance, std::forward<Args>(args)...);
    }
    explicit operator bool() const noexcept { return m_fn != nullptr; }
    bool operator==(const delegate &o) const noexcept { return m_fn == o.m_fn && m_instance == o.m_instance; }
    bool operator!=(const delegate &o) const noexcept { return !(*this == o); }

private:
    template<auto F, std::size_t... I>
    static function_type *wrap(std::index_sequence<I...>) {
        return [](const void *, Args... args) -> Ret {
            [[maybe_unused]] auto t = std::forward_as_tuple(std::forward<Args>(args)...);
            return static_cast<Ret>(std::invoke(F, std::forward<std::tuple_element_t<I, tuple_t>>(std::get<I>(t))...));
        };
    }
    template<auto F, typename T, std::size_t... I>
    static function_type *wrap_ref(std::index_sequence<I...>) {
        return [](const void *p, Args... args) -> Ret {
            [[maybe_unused]] auto t = std::forward_as_tuple(std::forward<Args>(args)...);
            auto &inst = *static_cast<T *>(const_cast<void *>(static_cast<std::conditional_t<std::is_const_v<T>, const void, const void> *>(p)));
            return static_cast<Ret>(std::invoke(F, inst, std::forward<std::tuple_element_t<I, tuple_t>>(std::get<I>(t))...));
        };
    }
    template<auto F, typename T, std::size_t... I>
    static function_type *wrap_ptr(std::index_sequence<I...>) {
        return [](const void *p, Args... args) -> Ret {
            [[maybe_unused]] auto t = std::forward_as_tuple(std::forward<Args>(args)...);
            auto *inst = static_cast<T *>(const_cast<void *>(p));
            return static_cast<Ret>(std::invoke(F, inst, std::forward<std::tuple_element_t<I, tuple_t>>(std::get<I>(t))...));
        };
    }
    const void *m_instance{};
    function_type *m_fn{};
};

template<auto F> delegate(connect_arg_t<F>) -> delegate<typename shim::deduce<F, false>::type>;
template<auto F, typename T> delegate(connect_arg_t<F>, T &&) -> delegate<typename shim::deduce<F, true>::type>;

// ---------------------------------------------------------------- signals
template<typename> class sigh;
template<typename> class sink;

template<typename Ret, typename... Args>
class sigh<Ret(Args...)> {
    friend class sink<sigh>;
public:
    using sink_type = sink<sigh>;
    std::size_t size() const { return m_calls.size(); }
    bool empty() const { return m_calls.empty(); }
    void publish(Args... args) const {
        for (auto pos = m_calls.size(); pos; --pos) m_calls[pos - 1](args...);
    }
private:
    std::vector<delegate<Ret(Args...)>> m_calls;
};

class connection {
    template<typename> friend class sink;
    connection(delegate<void(void *)> fn, void *ref) : m_disconnect(fn), m_signal(ref) {}
public:
    connection() = default;
    explicit operator bool() const { return static_cast<bool>(m_disconnect); }
    void release() {
        if (m_disconnect) { m_disconnect(m_signal); m_disconnect.reset(); }
    }
private:
    delegate<void(void *)> m_disconnect;
    void *m_signal{};
};

struct scoped_connection {
    scoped_connection() = default;
    scoped_connection(const connection &o) : m_conn(o) {}
    scoped_connection(const scoped_connection &) = delete;
    scoped_connection(scoped_connection &&o) noexcept : m_conn(std::exchange(o.m_conn, {})) {}
    ~scoped_connection() { m_conn.release(); }
    scoped_connection &operator=(const scoped_connection &) = delete;
    scoped_connection &operator=(scoped_connection &&o) noexcept { m_conn = std::exchange(o.m_conn, {}); return *this; }
    scoped_connection &operator=(connection o) { m_conn = o; return *this; }
    explicit operator bool() const { return static_cast<bool>(m_conn); }
    void release() { m_conn.release(); }
private:
    connection m_conn;
};

template<typename Ret, typename... Args>
class sink<sigh<Ret(Args...)>> {
    using signal_type = sigh<Ret(Args...)>;
    using delegate_type = delegate<Ret(Args...)>;
    template<auto F, typename T> static void release(T inst, void *s) { sink{*static_cast<signal_type *>(s)}.template disconnect<F>(inst); }
    template<auto F, typename T> static void release_ref(T &inst, void *s) { sink{*static_cast<signal_type *>(s)}.template disconnect<F>(inst); }
    template<auto F> static void release_free(void *s) { sink{*static_cast<signal_type *>(s)}.template disconnect<F>(); }
    template<typename Pred> void disconnect_if(Pred p) {
        auto &c = m_signal->m_calls;
        for (auto pos = c.size(); pos; --pos) {
            if (p(c[pos - 1])) { c[pos - 1] = c.back(); c.pop_back(); }
        }
    }
public:
    sink(signal_type &s) : m_signal(&s) {}
    bool empty() const { return m_signal->m_calls.empty(); }
    template<auto F>
    connection connect() {
        disconnect<F>();
        delegate_type d; d.template connect<F>();
        m_signal->m_calls.push_back(d);
        delegate<void(void *)> conn; conn.template connect<&release_free<F>>();
        return {conn, m_signal};
    }
    template<auto F, typename T>
    connection connect(T &inst) {
        disconnect<F>(inst);
        delegate_type d; d.template connect<F>(inst);
        m_signal->m_calls.push_back(d);
        delegate<void(void *)> conn; conn.template connect<&release_ref<F, T>>(inst);
        return {conn, m_signal};
    }
    template<auto F, typename T>
    connection connect(T *inst) {
        disconnect<F>(inst);
        delegate_type d; d.template connect<F>(inst);
        m_signal->m_calls.push_back(d);
        delegate<void(void *)> conn; conn.template connect<&release<F, T *>>(inst);
        return {conn, m_signal};
    }
    template<auto F> void disconnect() {
        delegate_type d; d.template connect<F>();
        disconnect_if([&](auto &e) { return e == d; });
    }
    template<auto F, typename T> void disconnect(T &inst) {
        delegate_type d; d.template connect<F>(inst);
        disconnect_if([&](auto &e) { return e == d; });
    }
    template<auto F, typename T> void disconnect(T *inst) {
        delegate_type d; d.template connect<F>(inst);
        disconnect_if([&](auto &e) { return e == d; });
    }
    void disconnect(const void *inst) { disconnect_if([&](auto &e) { return e.data() == inst; }); }
    void disconnect() { m_signal->m_calls.clear(); }
private:
    signal_type *m_signal;
};
template<typename Ret, typename... Args> sink(sigh<Ret(Args...)> &) -> sink<sigh<Ret(Args...)>>;

// ---------------------------------------------------------------- sparse set
enum class deletion_policy : std::uint8_t { swap_and_pop = 0, in_place = 1, swap_only = 2, unspecified = 0 };

template<typename Alloc = std::allocator<entity>>
class basic_sparse_set_shim;

class sparse_set {
public:
    using entity_type = entity;
    using value_type = entity;
    using size_type = std::size_t;

    class iterator {
    public:
        using value_type = entity;
        using pointer = const entity *;
        using reference = const entity &;
        using difference_type = std::ptrdiff_t;
        using iterator_category = std::random_access_iterator_tag;
        iterator() = default;
        iterator(const std::vector<entity> *p, difference_type off) : m_p(p), m_off(off) {}
        iterator &operator++() { --m_off; return *this; }
        iterator operator++(int) { auto o = *this; ++*this; return o; }
        iterator &operator--() { ++m_off; return *this; }
        iterator operator--(int) { auto o = *this; --*this; return o; }
        iterator &operator+=(difference_type n) { m_off -= n; return *this; }
        iterator &operator-=(difference_type n) { m_off += n; return *this; }
        iterator operator+(difference_type n) const { auto o = *this; return o += n; }
        iterator operator-(difference_type n) const { auto o = *this; return o -= n; }
        difference_type operator-(const iterator &o) const { return o.m_off - m_off; }
        reference operator*() const { return (*m_p)[static_cast<std::size_t>(m_off - 1)]; }
        pointer operator->() const { return &**this; }
        reference operator[](difference_type n) const { return (*m_p)[static_cast<std::size_t>(m_off - 1 - n)]; }
        bool operator==(const iterator &o) const { return m_off == o.m_off; }
        bool operator!=(const iterator &o) const { return m_off != o.m_off; }
        bool operator<(const iterator &o) const { return m_off > o.m_off; }
        bool operator>(const iterator &o) const { return m_off < o.m_off; }
        bool operator<=(const iterator &o) const { return m_off >= o.m_off; }
        bool operator>=(const iterator &o) const { return m_off <= o.m_off; }
        difference_type index() const { return m_off - 1; }
        const std::vector<entity> *base() const { return m_p; }
    private:
        const std::vector<entity> *m_p{};
        difference_type m_off{};
    };
    using const_iterator = iterator;

    sparse_set() : sparse_set(deletion_policy::swap_and_pop, nullptr) {}
    explicit sparse_set(deletion_policy pol, const type_info *info = nullptr) : m_policy(pol), m_info(info) {}
    sparse_set(const sparse_set &) = delete;
    sparse_set(sparse_set &&o) noexcept
        : m_sparse(std::move(o.m_sparse)), m_packed(std::move(o.m_packed)), m_free(std::move(o.m_free)), m_policy(o.m_policy), m_info(o.m_info) {
        o.m_sparse.clear(); o.m_packed.clear(); o.m_free.clear();
    }
    virtual ~sparse_set() = default;
    sparse_set &operator=(const sparse_set &) = delete;
    sparse_set &operator=(sparse_set &&o) noexcept {
        m_sparse = std::move(o.m_sparse); m_packed = std::move(o.m_packed); m_free = std::move(o.m_free);
        o.m_sparse.clear(); o.m_packed.clear(); o.m_free.clear();
        m_policy = o.m_policy; m_info = o.m_info;
        return *this;
    }
    void swap(sparse_set &o) { std::swap(m_sparse, o.m_sparse); std::swap(m_packed, o.m_packed); std::swap(m_free, o.m_free); swap_payload(o); }

    const type_info &type() const { return m_info ? *m_info : type_id<void>(); }
    deletion_policy policy() const { return m_policy; }
    virtual void reserve(size_type n) { m_packed.reserve(n); }
    size_type capacity() const { return m_packed.capacity(); }
    size_type size() const { return m_packed.size(); }
    bool empty() const { return m_packed.empty(); }
    const entity *data() const { return m_packed.data(); }
    iterator begin() const { return {&m_packed, static_cast<std::ptrdiff_t>(m_packed.size())}; }
    iterator end() const { return {&m_packed, 0}; }
    iterator cbegin() const { return begin(); }
    iterator cend() const { return end(); }
    auto rbegin() const { return std::make_reverse_iterator(end()); }
    auto rend() const { return std::make_reverse_iterator(begin()); }
    bool contains(entity e) const {
        auto i = shim::idx(e);
        if (i >= m_sparse.size() || m_sparse[i] == npos) return false;
        return m_packed[m_sparse[i]] == e;
    }
    iterator find(entity e) const { return contains(e) ? iterator{&m_packed, static_cast<std::ptrdiff_t>(index(e)) + 1} : end(); }
    size_type index(entity e) const { ENTT_ASSERT(contains(e), "set does not contain entity"); return m_sparse[shim::idx(e)]; }
    entity operator[](size_type pos) const { ENTT_ASSERT(pos < m_packed.size(), "out of bounds"); return m_packed[pos]; }
    entity at(size_type pos) const { return pos < m_packed.size() ? m_packed[pos] : entity{null}; }
    iterator push(entity e) { auto pos = push_entity(e); payload_default(pos); return {&m_packed, static_cast<std::ptrdiff_t>(pos) + 1}; }
    template<typename It, typename = std::enable_if_t<!std::is_same_v<It, const void *>>>
    iterator push(It first, It last) { for (; first != last; ++first) push(*first); return begin(); }
    void erase(entity e) { ENTT_ASSERT(contains(e), "set does not contain entity"); do_erase(e); }
    template<typename It> void erase(It first, It last) {
        std::vector<entity> v(first, last);
        for (auto e : v) erase(e);
    }
    bool remove(entity e) { if (!contains(e)) return false; do_erase(e); return true; }
    template<typename It> size_type remove(It first, It last) {
        std::vector<entity> v(first, last);
        size_type n = 0;
        for (auto e : v) n += remove(e);
        return n;
    }
    void clear() { pop_all(); }
    template<typename Compare, typename... A>
    void sort(Compare compare, A &&...) {
        // EnTT sorts so that iteration (newest to oldest) follows `compare`.
        std::vector<entity> v(begin(), end());
        std::stable_sort(v.begin(), v.end(), compare);
        for (size_type i = 0; i < v.size(); ++i) swap_elements(m_packed[v.size() - 1 - i], v[i]);
    }
    void swap_elements(entity a, entity b) {
        auto ia = index(a), ib = index(b);
        if (ia == ib) return;
        payload_swap(ia, ib);
        std::swap(m_packed[ia], m_packed[ib]);
        m_sparse[shim::idx(a)] = ib;
        m_sparse[shim::idx(b)] = ia;
    }
    virtual const void *value(entity) const { return nullptr; }

protected:
    static constexpr std::size_t npos = static_cast<std::size_t>(-1);
    size_type push_entity(entity e) {
        ENTT_ASSERT(!contains(e), "set already contains entity");
        auto i = shim::idx(e);
        if (i >= m_sparse.size()) m_sparse.resize(i + 1, npos);
        ENTT_ASSERT(m_sparse[i] == npos, "slot not available");
        size_type pos;
        if (m_policy == deletion_policy::in_place && !m_free.empty()) {
            pos = m_free.back(); m_free.pop_back();
            m_packed[pos] = e;
        } else {
            pos = m_packed.size();
            m_packed.push_back(e);
        }
        m_sparse[i] = pos;
        return pos;
    }
    virtual void do_erase(entity e) { erase_now(e); }
    virtual void pop_all() { clear_now(); }
    void erase_now(entity e) {
        auto pos = m_sparse[shim::idx(e)];
        m_sparse[shim::idx(e)] = npos;
        if (m_policy == deletion_policy::in_place) {
            m_packed[pos] = tombstone;
            m_free.push_back(pos);
            payload_destroy(pos);
        } else {
            auto last = m_packed.size() - 1;
            if (pos != last) {
                m_packed[pos] = m_packed[last];
                m_sparse[shim::idx(m_packed[pos])] = pos;
            }
            m_packed.pop_back();
            payload_swap_and_pop(pos, last);
        }
    }
    void clear_now() {
        for (size_type i = 0; i < m_packed.size(); ++i) if (m_packed[i] != tombstone) payload_destroy(i);
        m_sparse.clear(); m_packed.clear(); m_free.clear();
    }
    virtual void payload_default(size_type) {}
    virtual void payload_destroy(size_type) {}
    virtual void payload_swap_and_pop(size_type, size_type) {}
    virtual void payload_swap(size_type, size_type) {}
    virtual void swap_payload(sparse_set &) {}

    std::vector<std::size_t> m_sparse;
    std::vector<entity> m_packed;
    std::vector<std::size_t> m_free;
    deletion_policy m_policy;
    const type_info *m_info;
};

// ---------------------------------------------------------------- storage
template<typename Reg> struct basic_registry_fwd;
class registry;

namespace shim {
    template<typename T, typename = void> struct in_place : std::bool_constant<!(std::is_move_constructible_v<T> && std::is_move_assignable_v<T>)> {};
    template<typename T> struct in_place<T, std::enable_if_t<T::in_place_delete>> : std::true_type {};
    template<typename T> inline constexpr bool is_tag = std::is_empty_v<T>;
}

template<typename T>
class storage;

namespace shim {
    // Pages of components, whose addresses do not change when more are added.
    template<typename T>
    class pages {
        static constexpr std::size_t page = 64;
        struct alignas(T) slot { unsigned char b[sizeof(T)]; };
        std::vector<std::unique_ptr<slot[]>> m_pages;
    public:
        T *raw(std::size_t i) {
            while (i / page >= m_pages.size()) m_pages.push_back(std::make_unique<slot[]>(page));
            return reinterpret_cast<T *>(&m_pages[i / page][i % page]);
        }
        T &at(std::size_t i) const { return *std::launder(reinterpret_cast<T *>(&m_pages[i / page][i % page])); }
        void swap(pages &o) { std::swap(m_pages, o.m_pages); }
    };
    struct no_pages {};
}

template<typename T>
class storage_base : public sparse_set {
    static constexpr bool tag = shim::is_tag<T>;
public:
    using element_type = T;
    using type = T;
    static constexpr auto policy_v = shim::in_place<T>::value ? deletion_policy::in_place : deletion_policy::swap_and_pop;

    storage_base() : sparse_set(policy_v, &type_id<T>()) {}
    storage_base(storage_base &&o) noexcept : sparse_set(policy_v, &type_id<T>()) { swap_all(o); }
    storage_base &operator=(storage_base &&o) noexcept { clear_now(); swap_all(o); return *this; }
    ~storage_base() override { clear_now(); }

    template<typename It, typename Ref>
    class comp_iterator {
    public:
        using value_type = T;
        using reference = Ref;
        using pointer = std::remove_reference_t<Ref> *;
        using difference_type = std::ptrdiff_t;
        using iterator_category = std::random_access_iterator_tag;
        comp_iterator() = default;
        comp_iterator(It s, difference_type off) : m_s(s), m_off(off) {}
        comp_iterator &operator++() { --m_off; return *this; }
        comp_iterator operator++(int) { auto o = *this; ++*this; return o; }
        comp_iterator &operator--() { ++m_off; return *this; }
        comp_iterator &operator+=(difference_type n) { m_off -= n; return *this; }
        comp_iterator operator+(difference_type n) const { auto o = *this; return o += n; }
        difference_type operator-(const comp_iterator &o) const { return o.m_off - m_off; }
        Ref operator*() const { return m_s->m_data.at(static_cast<std::size_t>(m_off - 1)); }
        pointer operator->() const { return &**this; }
        bool operator==(const comp_iterator &o) const { return m_off == o.m_off; }
        bool operator!=(const comp_iterator &o) const { return m_off != o.m_off; }
        bool operator<(const comp_iterator &o) const { return m_off > o.m_off; }
    private:
        It m_s{};
        difference_type m_off{};
    };
    using iterator = comp_iterator<const storage_base *, T &>;
    using const_iterator = comp_iterator<const storage_base *, const T &>;
    auto begin() { if constexpr (tag) return sparse_set::begin(); else return iterator{this, static_cast<std::ptrdiff_t>(size())}; }
    auto end() { if constexpr (tag) return sparse_set::end(); else return iterator{this, 0}; }
    auto begin() const { if constexpr (tag) return sparse_set::begin(); else return const_iterator{this, static_cast<std::ptrdiff_t>(size())}; }
    auto end() const { if constexpr (tag) return sparse_set::end(); else return const_iterator{this, 0}; }

    decltype(auto) get(entity e) { if constexpr (tag) { ENTT_ASSERT(contains(e), ""); return; } else return static_cast<T &>(m_data.at(index(e))); }
    decltype(auto) get(entity e) const { if constexpr (tag) { ENTT_ASSERT(contains(e), ""); return; } else return static_cast<const T &>(m_data.at(index(e))); }
    auto get_as_tuple(entity e) { if constexpr (tag) { (void)e; return std::tuple<>{}; } else return std::forward_as_tuple(get(e)); }
    auto get_as_tuple(entity e) const { if constexpr (tag) { (void)e; return std::tuple<>{}; } else return std::forward_as_tuple(get(e)); }
    const void *value(entity e) const override { if constexpr (tag) { (void)e; return nullptr; } else return &m_data.at(index(e)); }

    template<typename... A>
    decltype(auto) emplace(entity e, A &&...args) {
        if constexpr (tag) {
            push_entity(e);
            constructed(e);
            return;
        } else {
            // Construct first, as the arguments might be elements of this storage.
            auto pos = (m_policy == deletion_policy::in_place && !m_free.empty()) ? m_free.back() : m_packed.size();
            ENTT_ASSERT(!contains(e), "slot not available");
            shim::construct<T>(m_data.raw(pos), std::forward<A>(args)...);
            push_entity(e);
            constructed(e);
            return static_cast<T &>(m_data.at(index(e)));
        }
    }
    template<typename... Func>
    decltype(auto) patch(entity e, Func &&...func) {
        if constexpr (tag) {
            ENTT_ASSERT(contains(e), "storage does not contain entity");
            (std::forward<Func>(func)(), ...);
            updated(e);
            return;
        } else {
            auto &elem = m_data.at(index(e));
            (std::forward<Func>(func)(elem), ...);
            updated(e);
            return static_cast<T &>(m_data.at(index(e)));
        }
    }
    template<typename It>
    void insert(It first, It last) { for (; first != last; ++first) emplace(*first); }
    template<typename It, typename V, typename = std::enable_if_t<std::is_same_v<std::decay_t<V>, T> && !shim::is_tag<T>>>
    void insert(It first, It last, const V &v) { for (; first != last; ++first) emplace(*first, v); }
    template<typename It, typename CIt, typename = std::enable_if_t<std::is_same_v<std::decay_t<typename std::iterator_traits<CIt>::value_type>, T>>, typename = void>
    void insert(It first, It last, CIt from) { for (; first != last; ++first, ++from) emplace(*first, *from); }

    auto each() const;
    auto each();

    // Signals.
    auto on_construct() { return sink{m_construct}; }
    auto on_update() { return sink{m_update}; }
    auto on_destroy() { return sink{m_destroy}; }
    void bind(registry &r) { m_owner = &r; }

protected:
    void constructed(entity e) { if (m_owner) m_construct.publish(*m_owner, e); }
    void updated(entity e) { if (m_owner) m_update.publish(*m_owner, e); }
    void do_erase(entity e) override {
        if (m_owner && !m_destroy.empty()) m_destroy.publish(*m_owner, e);
        erase_now(e);
    }
    void pop_all() override {
        if (m_owner && !m_destroy.empty()) {
            for (auto pos = m_packed.size(); pos; --pos) {
                if (m_packed[pos - 1] != tombstone) m_destroy.publish(*m_owner, m_packed[pos - 1]);
            }
        }
        clear_now();
    }
    void payload_default(size_type pos) override {
        if constexpr (!tag && std::is_default_constructible_v<T>) shim::construct<T>(m_data.raw(pos));
        else if constexpr (!tag) ENTT_ASSERT(false, "cannot push");
        constructed(m_packed[pos]);
    }
    void payload_destroy(size_type pos) override { if constexpr (!tag) m_data.at(pos).~T(); else (void)pos; }
    void payload_swap_and_pop(size_type pos, size_type last) override {
        if constexpr (!tag) {
            if constexpr (std::is_move_assignable_v<T> && std::is_move_constructible_v<T>) {
                auto &lst = m_data.at(last);
                if (pos != last) {
                    [[maybe_unused]] auto unused = std::exchange(m_data.at(pos), std::move(lst));
                    lst.~T();
                } else {
                    lst.~T();
                }
            } else {
                m_data.at(pos).~T(); (void)last;
            }
        } else { (void)pos; (void)last; }
    }
    void payload_swap(size_type a, size_type b) override {
        if constexpr (!tag && std::is_move_assignable_v<T> && std::is_move_constructible_v<T>) std::swap(m_data.at(a), m_data.at(b));
        else { (void)a; (void)b; }
    }
    void swap_payload(sparse_set &o) override { if constexpr (!tag) m_data.swap(static_cast<storage_base &>(o).m_data); else (void)o; }
    void swap_all(storage_base &o) {
        std::swap(m_sparse, o.m_sparse); std::swap(m_packed, o.m_packed); std::swap(m_free, o.m_free);
        if constexpr (!tag) m_data.swap(o.m_data);
        std::swap(m_construct, o.m_construct); std::swap(m_update, o.m_update); std::swap(m_destroy, o.m_destroy);
        std::swap(m_owner, o.m_owner);
    }

    std::conditional_t<tag, shim::no_pages, shim::pages<T>> m_data;
    sigh<void(registry &, entity)> m_construct, m_update, m_destroy;
    registry *m_owner{};
};

template<typename T>
class storage : public storage_base<T> {
public:
    using storage_base<T>::storage_base;
};

// The storage of entities: the ones that are alive come first.
template<>
class storage<entity> : public sparse_set {
public:
    using element_type = entity;
    storage() : sparse_set(deletion_policy::swap_only, &type_id<entity>()) {}
    entity generate() {
        if (m_alive == m_packed.size()) {
            auto e = shim::make(static_cast<std::uint32_t>(m_packed.size()), 0);
            m_sparse.push_back(m_packed.size());
            m_packed.push_back(e);
        }
        return m_packed[m_alive++];
    }
    entity generate(entity hint) {
        auto i = shim::idx(hint);
        if (hint == null || i < m_packed.size()) {
            if (hint != null && m_sparse[i] >= m_alive) {
                auto pos = m_sparse[i];
                swap_at(pos, m_alive);
                m_packed[m_alive] = hint;
                return m_packed[m_alive++];
            }
            return generate();
        }
        while (m_packed.size() <= i) {
            m_sparse.push_back(m_packed.size());
            m_packed.push_back(shim::make(static_cast<std::uint32_t>(m_packed.size()), 0));
        }
        swap_at(m_sparse[i], m_alive);
        m_packed[m_alive] = hint;
        return m_packed[m_alive++];
    }
    bool valid(entity e) const {
        auto i = shim::idx(e);
        return i < m_sparse.size() && m_sparse[i] < m_alive && m_packed[m_sparse[i]] == e;
    }
    entity current(entity e) const { return m_packed[m_sparse[shim::idx(e)]]; }
    bool contains(entity e) const { return valid(e); }
    void release(entity e, entity next) {
        ENTT_ASSERT(valid(e), "invalid entity");
        auto pos = m_sparse[shim::idx(e)];
        m_packed[pos] = next;
        swap_at(pos, m_alive - 1);
        --m_alive;
    }
    void release(entity e) { release(e, shim::next_version(e)); }
    std::size_t free_list() const { return m_alive; }
    std::size_t alive() const { return m_alive; }
    class each_range {
    public:
        explicit each_range(std::vector<std::tuple<entity>> v) : m_v(std::move(v)) {}
        auto begin() const { return m_v.begin(); }
        auto end() const { return m_v.end(); }
    private:
        std::vector<std::tuple<entity>> m_v;
    };
    each_range each() const {
        std::vector<std::tuple<entity>> v;
        for (auto i = m_alive; i; --i) v.emplace_back(m_packed[i - 1]);
        return each_range{std::move(v)};
    }
private:
    void swap_at(std::size_t a, std::size_t b) {
        std::swap(m_packed[a], m_packed[b]);
        m_sparse[shim::idx(m_packed[a])] = a;
        m_sparse[shim::idx(m_packed[b])] = b;
    }
    std::size_t m_alive = 0;
};

template<typename T>
struct storage_type { using type = storage<T>; };
template<typename T>
using storage_for_t = std::conditional_t<std::is_const_v<T>, const storage<std::remove_const_t<T>>, storage<T>>;

// ---------------------------------------------------------------- views
template<typename... T> struct exclude_t : type_list<T...> { explicit constexpr exclude_t() = default; };
template<typename... T> inline constexpr exclude_t<T...> exclude{};
template<typename... T> struct get_t : type_list<T...> { explicit constexpr get_t() = default; };
template<typename... T> inline constexpr get_t<T...> get{};

template<typename, typename> class basic_view;

template<typename... Get, typename... Excl>
class basic_view<get_t<Get...>, exclude_t<Excl...>> {
    static constexpr bool single = sizeof...(Get) == 1 && sizeof...(Excl) == 0;
    template<typename T> using elem_of = std::conditional_t<std::is_const_v<T>, const typename std::remove_const_t<T>::element_type, typename T::element_type>;
    using first_get = std::tuple_element_t<0, std::tuple<Get...>>;
    template<typename, typename> friend class basic_view;

    template<typename C, std::size_t I = 0>
    static constexpr std::size_t index_of() {
        using S = std::remove_const_t<std::tuple_element_t<I, std::tuple<Get...>>>;
        if constexpr (std::is_same_v<typename S::element_type, std::remove_const_t<C>>) return I;
        else return index_of<C, I + 1>();
    }
public:
    using entity_type = entity;
    class iterator {
    public:
        using value_type = entity;
        using pointer = const entity *;
        using reference = const entity &;
        using difference_type = std::ptrdiff_t;
        using iterator_category = std::forward_iterator_tag;
        iterator() = default;
        iterator(const basic_view *v, sparse_set::iterator it, sparse_set::iterator last) : m_v(*v), m_it(it), m_last(last) { seek(); }
        iterator &operator++() { ++m_it; seek(); return *this; }
        iterator operator++(int) { auto o = *this; ++*this; return o; }
        reference operator*() const { return *m_it; }
        pointer operator->() const { return &*m_it; }
        bool operator==(const iterator &o) const { return m_it == o.m_it; }
        bool operator!=(const iterator &o) const { return m_it != o.m_it; }
    private:
        void seek() { while (m_it != m_last && !m_v.accept(*m_it)) ++m_it; }
        basic_view m_v{};
        sparse_set::iterator m_it{}, m_last{};
    };

    basic_view() : m_get{}, m_excl{}, m_lead(nullptr) {}
    basic_view(Get &...g, Excl &...e) : m_get{&g...}, m_excl{&e...} { refresh(); }
    basic_view(std::tuple<Get &...> g, std::tuple<Excl &...> e)
        : m_get(std::apply([](auto &...x) { return std::tuple<Get *...>{&x...}; }, g))
        , m_excl(std::apply([](auto &...x) { return std::tuple<Excl *...>{&x...}; }, e)) { refresh(); }

    void refresh() {
        m_lead = std::get<0>(m_get);
        std::apply([&](auto *...p) { ((m_lead = (p && m_lead && p->size() < m_lead->size()) ? static_cast<const sparse_set *>(p) : m_lead), ...); }, m_get);
    }
    const sparse_set *handle() const { return m_lead; }
    explicit operator bool() const { return m_lead != nullptr; }

    auto begin() const {
        if constexpr (single && !shim::in_place<std::remove_const_t<elem_of<first_get>>>::value) return m_lead ? m_lead->sparse_set::begin() : sparse_set::iterator{};
        else return m_lead ? iterator{this, m_lead->sparse_set::begin(), m_lead->sparse_set::end()} : iterator{};
    }
    auto end() const {
        if constexpr (single && !shim::in_place<std::remove_const_t<elem_of<first_get>>>::value) return m_lead ? m_lead->sparse_set::end() : sparse_set::iterator{};
        else return m_lead ? iterator{this, m_lead->sparse_set::end(), m_lead->sparse_set::end()} : iterator{};
    }
    std::size_t size() const { return m_lead ? m_lead->size() : 0; }
    std::size_t size_hint() const { return size(); }
    bool empty() const { return !m_lead || m_lead->empty(); }
    entity front() const { auto it = begin(); return it != end() ? *it : entity{null}; }
    entity back() const { entity r = null; for (auto e : *this) r = e; return r; }
    bool contains(entity e) const {
        return m_lead && accept(e);
    }
    auto find(entity e) const {
        if constexpr (single) return m_lead ? m_lead->find(e) : sparse_set::iterator{};
        else return contains(e) ? iterator{this, m_lead->find(e), m_lead->sparse_set::end()} : end();
    }
    template<typename T> auto *storage() const { return std::get<index_of<T>()>(m_get); }
    template<std::size_t I = 0> auto *storage() const { return std::get<I>(m_get); }

    template<typename... T>
    decltype(auto) get(entity e) const {
        if constexpr (sizeof...(T) == 0) return std::apply([&](auto *...p) { return std::tuple_cat(p->get_as_tuple(e)...); }, m_get);
        else if constexpr (sizeof...(T) == 1) return (std::get<index_of<T>()>(m_get)->get(e), ...);
        else return std::tuple_cat(std::get<index_of<T>()>(m_get)->get_as_tuple(e)...);
    }
    template<std::size_t I, std::size_t... J>
    decltype(auto) get(entity e) const {
        if constexpr (sizeof...(J) == 0) return std::get<I>(m_get)->get(e);
        else return std::tuple_cat(std::get<I>(m_get)->get_as_tuple(e), std::get<J>(m_get)->get_as_tuple(e)...);
    }
    decltype(auto) operator[](entity e) const { return get(e); }
    auto *operator->() const { return std::get<0>(m_get); }
    template<typename... OG, typename... OE>
    auto operator|(const basic_view<get_t<OG...>, exclude_t<OE...>> &o) const {
        basic_view<get_t<Get..., OG...>, exclude_t<Excl..., OE...>> v;
        v.m_get = std::tuple_cat(m_get, o.m_get);
        v.m_excl = std::tuple_cat(m_excl, o.m_excl);
        v.refresh();
        return v;
    }

    template<typename Func>
    void each(Func func) const {
        for (auto it = begin(), last = end(); it != last; ++it) {
            auto e = *it;
            auto t = get(e);
            if constexpr (shim_applies_entity<Func>(static_cast<decltype(t) *>(nullptr))) std::apply(func, std::tuple_cat(std::make_tuple(e), t));
            else std::apply(func, t);
        }
    }

    class each_iterator {
        using base = decltype(std::declval<const basic_view &>().begin());
    public:
        using value_type = decltype(std::tuple_cat(std::make_tuple(entity{}), std::declval<const basic_view &>().get(entity{})));
        using reference = value_type;
        using pointer = void;
        using difference_type = std::ptrdiff_t;
        using iterator_category = std::input_iterator_tag;
        each_iterator() = default;
        each_iterator(const basic_view &v, base it) : m_v(v), m_it(it) {}
        each_iterator &operator++() { ++m_it; return *this; }
        each_iterator operator++(int) { auto o = *this; ++*this; return o; }
        value_type operator*() const { auto e = *m_it; return std::tuple_cat(std::make_tuple(e), m_v.get(e)); }
        bool operator==(const each_iterator &o) const { return m_it == o.m_it; }
        bool operator!=(const each_iterator &o) const { return m_it != o.m_it; }
    private:
        basic_view m_v;
        base m_it;
    };
    class each_range {
    public:
        explicit each_range(const basic_view &v) : m_v(v) {}
        each_iterator begin() const { return {m_v, m_v.begin()}; }
        each_iterator end() const { return {m_v, m_v.end()}; }
    private:
        basic_view m_v;
    };
    each_range each() const { return each_range{*this}; }

private:
    template<typename Func, typename... A>
    static constexpr bool shim_applies_entity(std::tuple<A...> *) { return std::is_invocable_v<Func, entity, A...>; }
    bool accept(entity e) const {
        return e != tombstone
            && std::apply([&](auto *...p) { return ((p && p->contains(e)) && ...); }, m_get)
            && std::apply([&](auto *...p) { return ((!p || !p->contains(e)) && ...); }, m_excl);
    }
    std::tuple<Get *...> m_get;
    std::tuple<Excl *...> m_excl;
    const sparse_set *m_lead;
};

template<typename T>
auto storage_base<T>::each() { return basic_view<get_t<storage<T>>, exclude_t<>>{static_cast<storage<T> &>(*this)}.each(); }
template<typename T>
auto storage_base<T>::each() const { return basic_view<get_t<const storage<T>>, exclude_t<>>{static_cast<const storage<T> &>(*this)}.each(); }

template<typename Get, typename Excl = exclude_t<>> struct view_shim;
template<typename... G, typename... E> struct view_shim<get_t<G...>, exclude_t<E...>> { using type = basic_view<get_t<storage_for_t<G>...>, exclude_t<storage_for_t<E>...>>; };
template<typename Get, typename Excl = exclude_t<>> using view = typename view_shim<Get, Excl>::type;

// ---------------------------------------------------------------- registry
namespace shim {
    template<typename T> const storage<T> &empty_storage() { static const storage<T> s; return s; }
}

class registry {
public:
    using entity_type = entity;
    using version_type = std::uint16_t;
    using size_type = std::size_t;
    using allocator_type = std::allocator<entity>;
    template<typename T> using storage_for_type = storage_for_t<T>;

    class context {
        template<typename T> static constexpr id_type key() { return type_hash<std::remove_cv_t<std::remove_reference_t<T>>>::value(); }
    public:
        context() = default;
        explicit context(const allocator_type &) {}
        // Like EnTT's: keeps the value that is there.
        template<typename T, typename... A> T &emplace(A &&...args) { return emplace_as<T>(key<T>(), std::forward<A>(args)...); }
        template<typename T, typename... A> T &emplace_as(id_type id, A &&...args) {
            auto &p = m_data[id];
            if (!p) p.template emplace<T>(std::forward<A>(args)...);
            return *static_cast<T *>(p.data());
        }
        template<typename T> std::decay_t<T> &insert_or_assign(T &&value) {
            using U = std::decay_t<T>;
            auto &p = m_data[key<U>()];
            p.template emplace<U>(std::forward<T>(value));
            return *static_cast<U *>(p.data());
        }
        template<typename T> bool erase() { return m_data.erase(key<T>()) != 0; }
        template<typename T> T &get() { auto *p = find<T>(); ENTT_ASSERT(p, "invalid instance"); return *p; }
        template<typename T> const std::remove_const_t<T> &get() const { auto *p = find<T>(); ENTT_ASSERT(p, "invalid instance"); return *p; }
        template<typename T> T *find() { auto it = m_data.find(key<T>()); return it == m_data.end() ? nullptr : static_cast<T *>(it->second.data()); }
        template<typename T> const std::remove_const_t<T> *find() const { auto it = m_data.find(key<T>()); return it == m_data.end() ? nullptr : static_cast<const std::remove_const_t<T> *>(it->second.data()); }
        template<typename T> bool contains() const { return m_data.count(key<T>()) != 0; }
    private:
        std::map<id_type, any> m_data;
    };

    registry() = default;
    explicit registry(size_type) {}
    registry(const registry &) = delete;
    registry(registry &&o) noexcept : m_entities(std::move(o.m_entities)), m_pools(std::move(o.m_pools)), m_order(std::move(o.m_order)), m_ctx(std::move(o.m_ctx)) { rebind(); }
    registry &operator=(const registry &) = delete;
    registry &operator=(registry &&o) noexcept { m_entities = std::move(o.m_entities); m_pools = std::move(o.m_pools); m_order = std::move(o.m_order); m_ctx = std::move(o.m_ctx); rebind(); return *this; }
    ~registry() = default;

    context &ctx() { return m_ctx; }
    const context &ctx() const { return m_ctx; }

    template<typename T> auto &storage() {
        if constexpr (std::is_same_v<std::remove_const_t<T>, entity>) return m_entities;
        else return assure<std::remove_const_t<T>>();
    }
    template<typename T> const auto *storage() const {
        if constexpr (std::is_same_v<std::remove_const_t<T>, entity>) return &m_entities;
        else return find_pool<std::remove_const_t<T>>();
    }
    class storage_range {
    public:
        explicit storage_range(std::vector<std::pair<id_type, sparse_set &>> v) : m_v(std::move(v)) {}
        auto begin() { return m_v.begin(); }
        auto end() { return m_v.end(); }
    private:
        std::vector<std::pair<id_type, sparse_set &>> m_v;
    };
    storage_range storage() const {
        std::vector<std::pair<id_type, sparse_set &>> v;
        for (auto id : m_order) v.emplace_back(id, *m_pools.at(id).set);
        return storage_range{std::move(v)};
    }

    bool valid(entity e) const { return m_entities.valid(e); }
    version_type current(entity e) const { return static_cast<version_type>(shim::ver(m_entities.current(e))); }
    entity create() { return m_entities.generate(); }
    entity create(entity hint) { return m_entities.generate(hint); }
    template<typename It> void create(It first, It last) { for (; first != last; ++first) *first = create(); }
    version_type destroy(entity e) {
        ENTT_ASSERT(valid(e), "invalid entity");
        for (auto pos = m_order.size(); pos; --pos) m_pools.at(m_order[pos - 1]).set->remove(e);
        m_entities.release(e);
        return current(e);
    }
    template<typename It> void destroy(It first, It last) {
        std::vector<entity> v(first, last);
        for (auto e : v) destroy(e);
    }
    bool orphan(entity e) const {
        for (auto &p : m_pools) if (p.second.set->contains(e)) return false;
        return true;
    }

    template<typename T, typename... A> decltype(auto) emplace(entity e, A &&...args) {
        ENTT_ASSERT(valid(e), "invalid entity");
        return assure<T>().emplace(e, std::forward<A>(args)...);
    }
    template<typename T, typename It> void insert(It first, It last, const T &value = {}) {
        for (; first != last; ++first) { if constexpr (shim::is_tag<T>) emplace<T>(*first); else emplace<T>(*first, value); }
    }
    template<typename T, typename EIt, typename CIt, typename = std::enable_if_t<std::is_same_v<typename std::iterator_traits<CIt>::value_type, T>>>
    void insert(EIt first, EIt last, CIt from) { for (; first != last; ++first, ++from) emplace<T>(*first, *from); }
    template<typename T, typename... A> decltype(auto) emplace_or_replace(entity e, A &&...args) {
        auto &s = assure<T>();
        ENTT_ASSERT(valid(e), "invalid entity");
        if constexpr (shim::is_tag<T>) {
            if (s.contains(e)) s.patch(e); else s.emplace(e);
            return;
        } else {
            if (s.contains(e)) return static_cast<T &>(s.patch(e, [&](T &cur) { cur = make<T>(std::forward<A>(args)...); }));
            return static_cast<T &>(s.emplace(e, std::forward<A>(args)...));
        }
    }
    template<typename T, typename... F> decltype(auto) patch(entity e, F &&...f) {
        ENTT_ASSERT(valid(e), "invalid entity");
        return assure<T>().patch(e, std::forward<F>(f)...);
    }
    template<typename T, typename... A> decltype(auto) replace(entity e, A &&...args) {
        if constexpr (shim::is_tag<T>) { assure<T>().patch(e); return; }
        else return static_cast<T &>(assure<T>().patch(e, [&](T &cur) { cur = make<T>(std::forward<A>(args)...); }));
    }
    template<typename T, typename... O> size_type remove(entity e) {
        return (assure<T>().remove(e) + ... + assure<O>().remove(e));
    }
    template<typename T, typename... O, typename It, typename = std::enable_if_t<!std::is_convertible_v<It, entity>>> size_type remove(It first, It last) {
        std::vector<entity> v(first, last);
        size_type n = 0;
        for (auto e : v) n += remove<T, O...>(e);
        return n;
    }
    template<typename T, typename... O> void erase(entity e) {
        ENTT_ASSERT(valid(e), "invalid entity");
        (assure<T>().erase(e), (assure<O>().erase(e), ...));
    }
    template<typename T, typename... O, typename It, typename = std::enable_if_t<!std::is_convertible_v<It, entity>>> void erase(It first, It last) {
        std::vector<entity> v(first, last);
        for (auto e : v) erase<T, O...>(e);
    }
    template<typename... T> void clear() {
        if constexpr (sizeof...(T) == 0) {
            for (auto pos = m_order.size(); pos; --pos) m_pools.at(m_order[pos - 1]).set->clear();
            std::vector<entity> v;
            for (auto [e] : m_entities.each()) v.push_back(e);
            for (auto e : v) m_entities.release(e);
        } else {
            (assure<T>().clear(), ...);
        }
    }
    template<typename... T> bool all_of(entity e) const {
        return (has<std::remove_const_t<T>>(e) && ...);
    }
    template<typename... T> bool any_of(entity e) const { return (has<std::remove_const_t<T>>(e) || ...); }

    template<typename... T> decltype(auto) get(entity e) {
        if constexpr (sizeof...(T) == 1) return (assure<std::remove_const_t<T>>().get(e), ...);
        else return std::forward_as_tuple(get<T>(e)...);
    }
    template<typename... T> decltype(auto) get(entity e) const {
        if constexpr (sizeof...(T) == 1) return (pool<std::remove_const_t<T>>().get(e), ...);
        else return std::forward_as_tuple(get<T>(e)...);
    }
    template<typename... T> auto try_get(entity e) {
        if constexpr (sizeof...(T) == 1) { auto &s = assure<std::remove_const_t<T>...>(); return s.contains(e) ? std::addressof(s.get(e)) : nullptr; }
        else return std::make_tuple(try_get<T>(e)...);
    }
    template<typename... T> auto try_get(entity e) const {
        if constexpr (sizeof...(T) == 1) { auto &s = pool<std::remove_const_t<T>...>(); return s.contains(e) ? std::addressof(s.get(e)) : nullptr; }
        else return std::make_tuple(try_get<T>(e)...);
    }
    template<typename T, typename... A> decltype(auto) get_or_emplace(entity e, A &&...args) {
        auto &s = assure<T>();
        if constexpr (shim::is_tag<T>) { if (!s.contains(e)) s.emplace(e); return; }
        else {
            if (s.contains(e)) return static_cast<T &>(s.get(e));
            return static_cast<T &>(emplace<T>(e, std::forward<A>(args)...));
        }
    }
    template<typename T> auto on_construct() { return assure<T>().on_construct(); }
    template<typename T> auto on_update() { return assure<T>().on_update(); }
    template<typename T> auto on_destroy() { return assure<T>().on_destroy(); }

    template<typename T, typename... O, typename... E>
    basic_view<get_t<storage_for_type<T>, storage_for_type<O>...>, exclude_t<storage_for_type<E>...>> view(exclude_t<E...> = exclude_t<E...>{}) {
        return {storage<std::remove_const_t<T>>(), storage<std::remove_const_t<O>>()..., storage<std::remove_const_t<E>>()...};
    }
    template<typename T, typename... O, typename... E>
    basic_view<get_t<storage_for_type<const T>, storage_for_type<const O>...>, exclude_t<storage_for_type<const E>...>> view(exclude_t<E...> = exclude_t<E...>{}) const {
        return {pool<std::remove_const_t<T>>(), pool<std::remove_const_t<O>>()..., pool<std::remove_const_t<E>>()...};
    }
    template<typename T, typename Compare> void sort(Compare c) { assure<T>().sort(c); }

private:
    struct slot { std::unique_ptr<sparse_set> set; void (*bind)(sparse_set &, registry &); };
    template<typename T, typename... A> static T make(A &&...a) {
        if constexpr (std::is_aggregate_v<T> && (sizeof...(A) != 0u || !std::is_default_constructible_v<T>)) return T{std::forward<A>(a)...};
        else return T(std::forward<A>(a)...);
    }
    template<typename T> entt::storage<T> &assure() {
        auto id = type_hash<T>::value();
        auto it = m_pools.find(id);
        if (it == m_pools.end()) {
            auto p = std::make_unique<entt::storage<T>>();
            p->bind(*this);
            auto &ref = *p;
            m_pools.emplace(id, slot{std::move(p), [](sparse_set &s, registry &r) { static_cast<entt::storage<T> &>(s).bind(r); }});
            m_order.push_back(id);
            return ref;
        }
        return static_cast<entt::storage<T> &>(*it->second.set);
    }
    template<typename T> const entt::storage<T> *find_pool() const {
        auto it = m_pools.find(type_hash<T>::value());
        return it == m_pools.end() ? nullptr : static_cast<const entt::storage<T> *>(it->second.set.get());
    }
    template<typename T> const entt::storage<T> &pool() const {
        auto *p = find_pool<T>();
        return p ? *p : shim::empty_storage<T>();
    }
    template<typename T> bool has(entity e) const { auto *p = find_pool<T>(); return p && p->contains(e); }
    void rebind() { for (auto &p : m_pools) p.second.bind(*p.second.set, *this); }

    entt::storage<entity> m_entities;
    std::unordered_map<id_type, slot> m_pools;
    std::vector<id_type> m_order;
    context m_ctx;
};

template<typename E> using basic_registry = registry;

} // namespace entt

#endif
