// The part of EnTT's run-time reflection which edyn uses to find the entities
// held by components.
#ifndef VP_ENTT_SHIM_META_HPP
#define VP_ENTT_SHIM_META_HPP

#include "entt/shim.hpp"

namespace entt {

struct as_ref_t {};
struct as_value_t {};
struct as_void_t {};
struct as_is_t {};

class meta_any;
class meta_handle;
class meta_sequence_container;
class meta_associative_container;
class meta_data;
class meta_type;

namespace shim {
    template<typename T> struct is_seq : std::false_type {};
    template<typename T, typename A> struct is_seq<std::vector<T, A>> : std::true_type {};
    template<typename T, std::size_t N> struct is_seq<std::array<T, N>> : std::true_type {};
    template<typename T> struct is_dyn_seq : std::false_type {};
    template<typename T, typename A> struct is_dyn_seq<std::vector<T, A>> : std::true_type {};
    template<typename T> struct is_assoc : std::false_type {};
    template<typename K, typename V, typename... O> struct is_assoc<std::map<K, V, O...>> : std::true_type {};
    template<typename K, typename V, typename... O> struct is_assoc<std::unordered_map<K, V, O...>> : std::true_type {};

    struct type_node;
    struct seq_ops {
        const type_node *value;
        std::size_t (*size)(const void *);
        void *(*at)(void *, std::size_t);
        bool (*erase)(void *, std::size_t);
    };
    struct assoc_ops {
        const type_node *key, *mapped;
        std::size_t (*size)(const void *);
        std::pair<const void *, void *> (*at)(void *, std::size_t);
        bool (*erase)(void *, const void *);
    };
    struct data_node {
        id_type id;
        const type_node *type;
        void *(*ref)(void *);
    };
    struct type_node {
        id_type id;
        void *(*clone)(const void *);
        void (*destroy)(void *);
        void (*assign)(void *, const void *);
        const seq_ops *seq;
        const assoc_ops *assoc;
        bool registered = false;
        std::vector<data_node> data;
    };
    // Types that were registered with a factory, by identifier.
    inline std::unordered_map<id_type, type_node *> &meta_context() {
        static std::unordered_map<id_type, type_node *> m;
        return m;
    }
    template<typename T> type_node *node_of();
    template<typename T> const seq_ops *seq_of() {
        if constexpr (is_seq<T>::value) {
            static const seq_ops o{
                node_of<typename T::value_type>(),
                [](const void *p) { return static_cast<const T *>(p)->size(); },
                [](void *p, std::size_t i) -> void * { return &(*static_cast<T *>(p))[i]; },
                [](void *p, std::size_t i) {
                    if constexpr (is_dyn_seq<T>::value) { auto &c = *static_cast<T *>(p); c.erase(c.begin() + static_cast<std::ptrdiff_t>(i)); return true; }
                    else { (void)p; (void)i; return false; }
                }};
            return &o;
        } else return nullptr;
    }
    template<typename T> const assoc_ops *assoc_of() {
        if constexpr (is_assoc<T>::value) {
            static const assoc_ops o{
                node_of<typename T::key_type>(), node_of<typename T::mapped_type>(),
                [](const void *p) { return static_cast<const T *>(p)->size(); },
                [](void *p, std::size_t i) {
                    auto it = std::next(static_cast<T *>(p)->begin(), static_cast<std::ptrdiff_t>(i));
                    return std::pair<const void *, void *>{&it->first, &it->second};
                },
                [](void *p, const void *k) { return static_cast<T *>(p)->erase(*static_cast<const typename T::key_type *>(k)) != 0; }};
            return &o;
        } else return nullptr;
    }
    template<typename T> type_node *node_of() {
        static type_node n{
            type_hash<T>::value(),
            [](const void *p) -> void * { if constexpr (std::is_copy_constructible_v<T>) return new T(*static_cast<const T *>(p)); else { (void)p; return nullptr; } },
            [](void *p) { delete static_cast<T *>(p); },
            [](void *d, const void *s) { if constexpr (std::is_copy_assignable_v<T>) *static_cast<T *>(d) = *static_cast<const T *>(s); else { (void)d; (void)s; } },
            nullptr, nullptr, false, {}};
        static const bool once = [] { n.seq = seq_of<T>(); n.assoc = assoc_of<T>(); return true; }();
        (void)once;
        return &n;
    }
}

// Either owns a value or refers to one.
class meta_any {
public:
    meta_any() = default;
    template<typename T, typename = std::enable_if_t<!std::is_same_v<std::decay_t<T>, meta_any>>>
    meta_any(T &&v) : m_node(shim::node_of<std::decay_t<T>>()), m_ptr(new std::decay_t<T>(std::forward<T>(v))), m_owner(true) {}
    meta_any(const shim::type_node *n, void *p) : m_node(n), m_ptr(p), m_owner(false) {}
    meta_any(const meta_any &o) : m_node(o.m_node), m_ptr(o.m_ptr && o.m_owner ? o.m_node->clone(o.m_ptr) : o.m_ptr ? o.m_node->clone(o.m_ptr) : nullptr), m_owner(m_ptr != nullptr) {}
    meta_any(meta_any &&o) noexcept : m_node(std::exchange(o.m_node, nullptr)), m_ptr(std::exchange(o.m_ptr, nullptr)), m_owner(std::exchange(o.m_owner, false)) {}
    meta_any &operator=(meta_any o) noexcept { std::swap(m_node, o.m_node); std::swap(m_ptr, o.m_ptr); std::swap(m_owner, o.m_owner); return *this; }
    ~meta_any() { if (m_owner && m_ptr) m_node->destroy(m_ptr); }
    template<typename T> T cast() const {
        using U = std::remove_cv_t<std::remove_reference_t<T>>;
        ENTT_ASSERT(m_node == shim::node_of<U>(), "invalid meta cast");
        return static_cast<T>(*static_cast<U *>(m_ptr));
    }
    template<typename T> T *try_cast() const {
        using U = std::remove_cv_t<T>;
        return m_node == shim::node_of<U>() ? static_cast<T *>(m_ptr) : nullptr;
    }
    meta_type type() const;
    meta_sequence_container as_sequence_container() const;
    meta_associative_container as_associative_container() const;
    explicit operator bool() const { return m_ptr != nullptr; }
    void *data() const { return m_ptr; }
    const shim::type_node *node() const { return m_node; }
private:
    const shim::type_node *m_node{};
    void *m_ptr{};
    bool m_owner{};
};

class meta_handle {
public:
    template<typename T, typename = std::enable_if_t<!std::is_same_v<std::decay_t<T>, meta_handle> && !std::is_same_v<std::decay_t<T>, meta_any>>>
    meta_handle(T &v) : m_ptr(const_cast<void *>(static_cast<const void *>(&v))) {}
    meta_handle(meta_any &v) : m_ptr(v.data()) {}
    meta_handle(const meta_any &v) : m_ptr(v.data()) {}
    void *data() const { return m_ptr; }
private:
    void *m_ptr;
};

class meta_data {
public:
    meta_data() = default;
    explicit meta_data(const shim::data_node *n) : m_node(n) {}
    meta_type type() const;
    meta_any get(meta_handle h) const { return meta_any{m_node->type, m_node->ref(h.data())}; }
    template<typename V> bool set(meta_handle h, V &&v) const {
        if (shim::node_of<std::decay_t<V>>() != m_node->type) return false;
        m_node->type->assign(m_node->ref(h.data()), &v);
        return true;
    }
    explicit operator bool() const { return m_node != nullptr; }
private:
    const shim::data_node *m_node{};
};

class meta_type {
public:
    meta_type() = default;
    explicit meta_type(const shim::type_node *n) : m_node(n) {}
    id_type id() const { return m_node ? m_node->id : id_type{}; }
    // Like EnTT's, only types which were registered are considered valid when
    // looked up by identifier; a type resolved statically always is.
    explicit operator bool() const { return m_node != nullptr; }
    bool operator==(const meta_type &o) const { return m_node == o.m_node; }
    bool operator!=(const meta_type &o) const { return m_node != o.m_node; }
    bool is_sequence_container() const { return m_node && m_node->seq; }
    bool is_associative_container() const { return m_node && m_node->assoc; }
    std::vector<std::pair<id_type, meta_data>> data() const {
        std::vector<std::pair<id_type, meta_data>> v;
        if (m_node) for (auto &d : m_node->data) v.emplace_back(d.id, meta_data{&d});
        return v;
    }
private:
    const shim::type_node *m_node{};
};

inline meta_type meta_any::type() const { return meta_type{m_node}; }
inline meta_type meta_data::type() const { return meta_type{m_node->type}; }

class meta_sequence_container {
public:
    class iterator {
    public:
        using value_type = meta_any;
        using reference = meta_any;
        using pointer = void;
        using difference_type = std::ptrdiff_t;
        using iterator_category = std::input_iterator_tag;
        iterator() = default;
        iterator(const shim::seq_ops *o, void *p, std::size_t i) : m_ops(o), m_ptr(p), m_i(i) {}
        iterator &operator++() { ++m_i; return *this; }
        iterator operator++(int) { auto o = *this; ++*this; return o; }
        meta_any operator*() const { return meta_any{m_ops->value, m_ops->at(m_ptr, m_i)}; }
        bool operator==(const iterator &o) const { return m_ptr == o.m_ptr && m_i == o.m_i; }
        bool operator!=(const iterator &o) const { return !(*this == o); }
        explicit operator bool() const { return m_ptr != nullptr; }
        std::size_t index() const { return m_i; }
    private:
        const shim::seq_ops *m_ops{};
        void *m_ptr{};
        std::size_t m_i{};
    };
    meta_sequence_container() = default;
    meta_sequence_container(const shim::seq_ops *o, void *p) : m_ops(o), m_ptr(p) {}
    meta_type value_type() const { return meta_type{m_ops->value}; }
    std::size_t size() const { return m_ops->size(m_ptr); }
    meta_any operator[](std::size_t i) { return meta_any{m_ops->value, m_ops->at(m_ptr, i)}; }
    iterator begin() { return {m_ops, m_ptr, 0}; }
    iterator end() { return {m_ops, m_ptr, size()}; }
    iterator erase(iterator it) { return m_ops->erase(m_ptr, it.index()) ? iterator{m_ops, m_ptr, it.index()} : iterator{}; }
    explicit operator bool() const { return m_ops != nullptr; }
private:
    const shim::seq_ops *m_ops{};
    void *m_ptr{};
};

class meta_associative_container {
public:
    class iterator {
    public:
        using value_type = std::pair<meta_any, meta_any>;
        using reference = value_type;
        using pointer = void;
        using difference_type = std::ptrdiff_t;
        using iterator_category = std::input_iterator_tag;
        iterator(const shim::assoc_ops *o, void *p, std::size_t i) : m_ops(o), m_ptr(p), m_i(i) {}
        iterator &operator++() { ++m_i; return *this; }
        value_type operator*() const {
            auto kv = m_ops->at(m_ptr, m_i);
            return {meta_any{m_ops->key, const_cast<void *>(kv.first)}, meta_any{m_ops->mapped, kv.second}};
        }
        bool operator==(const iterator &o) const { return m_i == o.m_i; }
        bool operator!=(const iterator &o) const { return m_i != o.m_i; }
    private:
        const shim::assoc_ops *m_ops;
        void *m_ptr;
        std::size_t m_i;
    };
    meta_associative_container() = default;
    meta_associative_container(const shim::assoc_ops *o, void *p) : m_ops(o), m_ptr(p) {}
    meta_type key_type() const { return meta_type{m_ops->key}; }
    meta_type mapped_type() const { return meta_type{m_ops->mapped}; }
    std::size_t size() const { return m_ops->size(m_ptr); }
    iterator begin() { return {m_ops, m_ptr, 0}; }
    iterator end() { return {m_ops, m_ptr, size()}; }
    bool erase(const meta_any &key) { return m_ops->erase(m_ptr, key.data()); }
    explicit operator bool() const { return m_ops != nullptr; }
private:
    const shim::assoc_ops *m_ops{};
    void *m_ptr{};
};

inline meta_sequence_container meta_any::as_sequence_container() const { return {m_node->seq, m_ptr}; }
inline meta_associative_container meta_any::as_associative_container() const { return {m_node->assoc, m_ptr}; }

template<typename T>
meta_type resolve() noexcept { return meta_type{shim::node_of<std::remove_cv_t<std::remove_reference_t<T>>>()}; }
inline meta_type resolve(id_type id) noexcept {
    auto &m = shim::meta_context();
    auto it = m.find(id);
    return it == m.end() ? meta_type{} : meta_type{it->second};
}
inline meta_type resolve(const type_info &info) noexcept { return resolve(info.hash()); }

template<typename T>
class meta_factory {
    template<auto M> static void *ref(void *p) { return &(static_cast<T *>(p)->*M); }
public:
    meta_factory() {
        auto *n = shim::node_of<T>();
        n->registered = true;
        shim::meta_context()[n->id] = n;
    }
    meta_factory &type(id_type id) { shim::meta_context()[id] = shim::node_of<T>(); return *this; }
    template<auto M, typename Policy = as_is_t>
    meta_factory &data(id_type id) {
        using D = std::decay_t<decltype(std::declval<T &>().*M)>;
        auto *n = shim::node_of<T>();
        shim::data_node d{id, shim::node_of<D>(), &ref<M>};
        for (auto &x : n->data) if (x.id == id) { x = d; return *this; }
        n->data.push_back(d);
        return *this;
    }
};

} // namespace entt

#endif
