// A server and its clients over a network that delays, reorders and loses packets: every history of operations and deliveries within the bounds ends with the same world everywhere.
#ifdef NET_EXTRAPOLATE
#include "jobs.hpp"
#undef VP_CHECK
#define VP_CHECK(c, ...) do { ++::vp::st().evals; if (mc::in_execution()) mc::check(c, __VA_ARGS__); else if (!(c)) ::vp::fail(__VA_ARGS__); } while (0)
#endif
#include "simworld.hpp"
#include "edyn/comp/action_list.hpp"
#include "edyn/comp/child_list.hpp"
#include "edyn/comp/gravity.hpp"
#include "edyn/constraints/soft_distance_constraint.hpp"
#include "edyn/constraints/hinge_constraint.hpp"
#include "edyn/constraints/point_constraint.hpp"
#include "edyn/networking/comp/aabb_of_interest.hpp"
#include "edyn/networking/comp/aabb_oi_follow.hpp"
#include "edyn/networking/comp/discontinuity.hpp"
#include "edyn/constraints/null_constraint.hpp"
#include "edyn/networking/comp/entity_owner.hpp"
#include "edyn/networking/comp/remote_client.hpp"
#include "edyn/networking/networking.hpp"
#include "edyn/networking/sys/client_side.hpp"
#include "edyn/networking/sys/server_side.hpp"
#include "edyn/serialization/entt_s11n.hpp"
#include "edyn/serialization/math_s11n.hpp"
#include "edyn/serialization/memory_archive.hpp"
#include "edyn/serialization/std_s11n.hpp"
#include "edyn/sys/update_aabbs.hpp"
#include <deque>
#include <thread>
using namespace edyn;
namespace {
struct pedal : network_input { int value{}; };
template<typename A> void serialize(A &ar, pedal &p) { ar(p.value); }
struct honk { int value{}; };
template<typename A> void serialize(A &ar, honk &h) { ar(h.value); }
constexpr double SKEW[3] = {0, 3.25, -2.5};
#ifdef NET_EXTRAPOLATE
mc::raw_counter TIME;    // in 1/1024 s; not part of the program, thus neither a race nor a scheduling point
constexpr bool EXTRAPOLATE = true;
#else
struct { long v; void set(long x) { v = x; } void add(long x) { v += x; } long get() { return v; } } TIME;
constexpr bool EXTRAPOLATE = false;
#endif
template<int I> double clk() { return TIME.get() / 1024.0 + SKEW[I]; }
#ifdef NET_EXTRAPOLATE
void start_thread(void (*f)(void *), void *p) { std::thread(f, p).detach(); }
void stop_threads() {}
#else
// The thread that extrapolates starts when it is to stop, and gets no messages.
struct nothing { message_queue_handle<extrapolation_request, extrapolation_operation_create, extrapolation_operation_destroy, msg::set_settings, msg::set_registry_operation_context, msg::set_material_table, msg::set_extrapolator_context_settings> q = message_dispatcher::global().make_queue<extrapolation_request, extrapolation_operation_create, extrapolation_operation_destroy, msg::set_settings, msg::set_registry_operation_context, msg::set_material_table, msg::set_extrapolator_context_settings>("extrapolation_worker"); };
std::vector<std::pair<void (*)(void *), void *>> THREADS;
void start_thread(void (*f)(void *), void *p) { THREADS.push_back({f, p}); }
void stop_threads() { nothing n; n.q.update(); for (auto [f, p] : THREADS) std::thread(f, p).detach(); THREADS.clear(); }
#endif
using bytes = std::vector<uint8_t>;
bytes pack(const packet::edyn_packet &p) { bytes b; memory_output_archive a(b); auto c = p; a(c); return b; }
packet::edyn_packet unpack(const bytes &b) { packet::edyn_packet p; memory_input_archive a(b.data(), b.size()); a(p); VP_CHECK(!a.failed() && a.eof(), "a packet cannot be read back"); return p; }
constexpr int NC = 2, NB = 4, NO = 3;          // clients, bodies of the server, bodies of each client
enum mode { ALL, UPLATE, DOWNLATE, BOTHLATE, LOSE, SNAPLATE, MODES };
const char *MODE[] = {"", " [to the server late]", " [to the clients late]", " [all late]", " [lossy]", " [snapshots late]"};
struct wire { struct pkt { bytes data; bool reliable; }; std::deque<pkt> q; };

struct net {
    entt::registry srv, cli[NC]; int clients; bool ownership; entt::entity id[NC]; bool joined[NC] = {}, left[NC] = {};
    wire up[NC], down[NC];
    entt::entity body[NB], joint = entt::null, own[NC][NO], ownjoint[NC];
    bool split = false, mixed = false, following = false, forged = false; entt::entity nojoint = entt::null; int asset_mode = 0; entt::entity asset = entt::null, part[2] = {entt::null, entt::null};
    std::vector<int> issued[NC][NO], done[NC][NO]; int number = 0; std::map<entt::entity, std::pair<int, int>> actor; bool shoved = false; vector3 expect[NB];
    std::deque<std::pair<entt::entity, int>> loading[NC];
    net(int clients, bool ownership) : clients(clients), ownership(ownership) {
        TIME.set(100 * 1024); for (auto &e : body) e = entt::null; for (auto &r : own) for (auto &e : r) e = entt::null; for (auto &e : ownjoint) e = entt::null; for (auto &e : id) e = entt::null;
        begin(srv, &clk<0>); init_network_server(srv); reg(srv); network_server_packet_sink(srv).connect<&net::from_server>(*this);
    }
    void reg(entt::registry &r) { register_networked_components<pedal>(r, std::tuple<honk>{}); }
    static void begin(entt::registry &r, double (*f)()) {
        init_config cfg; cfg.execution_mode = execution_mode::sequential; cfg.timestamp = f(); cfg.enqueue_task = &sim::run_now; cfg.enqueue_task_wait = &sim::run_wait; cfg.start_thread_func = &start_thread; cfg.fixed_dt = scalar(0.05);
        attach(r, cfg); set_time_source(r, f); set_gravity(r, vector3_zero); if (f == &clk<0>) { set_solver_velocity_iterations(r, 9); set_solver_position_iterations(r, 4); set_solver_restitution_iterations(r, 7); set_solver_individual_restitution_iterations(r, 2); } else set_gravity(r, vector3{0, scalar(-9.8), 0}); 
    }
    void join(int c) {
        begin(cli[c], c ? &clk<2> : &clk<1>); init_network_client(cli[c]); reg(cli[c]); set_network_client_extrapolation_enabled(cli[c], EXTRAPOLATE);
        if (c) network_client_packet_sink(cli[c]).connect<&net::from_client<1>>(*this); else network_client_packet_sink(cli[c]).connect<&net::from_client<0>>(*this);
        if (c) { network_client_entity_entered_sink(cli[c]).connect<&net::entered<1>>(*this); network_client_instantiate_asset_sink(cli[c]).connect<&net::instantiate<1>>(*this); } else { network_client_entity_entered_sink(cli[c]).connect<&net::entered<0>>(*this); network_client_instantiate_asset_sink(cli[c]).connect<&net::instantiate<0>>(*this); }
        id[c] = server_make_client(srv, ownership); srv.get<remote_client>(id[c]).snapshot_rate = 20; joined[c] = true;
    }
    void leave(int c) { server_destroy_client(srv, id[c]); left[c] = true; up[c].q.clear(); down[c].q.clear(); }
    ~net() { stop_threads(); for (int c = 0; c < NC; ++c) if (joined[c]) { deinit_network_client(cli[c]); detach(cli[c]); } deinit_network_server(srv); detach(srv); unregister_networked_components(srv); message_dispatcher::global().clear_queues(); }
    void from_server(entt::entity to, const packet::edyn_packet &p) { for (int c = 0; c < NC; ++c) if (joined[c] && !left[c] && id[c] == to) { down[c].q.push_back({pack(p), should_send_reliably(p)}); return; } bool gone = false; for (int c = 0; c < NC; ++c) gone |= left[c] && id[c] == to; VP_CHECK(!gone, "a packet is sent to a client that left"); VP_CHECK(false, "a packet is sent to something that is no client"); }
    template<int C> void from_client(const packet::edyn_packet &p) { if (!left[C]) up[C].q.push_back({pack(p), should_send_reliably(p)}); }
    template<int C> void entered(entt::entity e) { if (asset_mode == 0) instantiate<C>(e); else loading[C].push_back({e, asset_mode}); }
    template<int C> void instantiate(entt::entity e) {
        auto &r = cli[C]; VP_CHECK(r.valid(e) && r.all_of<asset_ref>(e) && r.get<asset_ref>(e).id == "pair" && r.get<asset_ref>(e).entity_map.size() == 2, "an asset is not what the server has"); VP_CHECK(!r.all_of<asset_linked_tag>(e), "an asset is to be instantiated twice");
        std::map<entt::id_type, entt::entity> m; for (int i = 0; i < 2; ++i) { auto d = def(i, home(i + 2) + vector3{0, 0, 3}); d.networked = false; m[entt::id_type(i + 40)] = make_rigidbody(r, d); }
        client_link_asset(r, e, m);
    }
    bool connected(int c) const { return joined[c] && !left[c]; }
    void deliver(bool late_up, bool late_down, bool lose, bool snaplate) {
        for (int c = 0; c < clients; ++c) if (connected(c)) for (int dir = 0; dir < 2; ++dir) {
            if (dir ? late_down : late_up) continue;
            auto q = std::move((dir ? down : up)[c].q); (dir ? down : up)[c].q.clear(); std::deque<wire::pkt> keep;
            for (auto &p : q) {
                if (!p.reliable && lose) continue;
                if (!p.reliable && snaplate) { keep.push_back(std::move(p)); continue; }
                auto x = unpack(p.data); if (dir) client_receive_packet(cli[c], x); else server_receive_packet(srv, id[c], x);
            }
            auto &left_over = (dir ? down : up)[c].q; for (auto it = keep.rbegin(); it != keep.rend(); ++it) left_over.push_front(std::move(*it));
        }
    }
    void tick(int m) {
        TIME.add(64); vp::transitions();
        deliver(m == UPLATE || m == BOTHLATE, m == DOWNLATE || m == BOTHLATE, m == LOSE, m == SNAPLATE);
        update_network_server(srv);
        for (auto [e, l] : srv.view<action_list<honk>>().each()) { for (auto &a : l.actions) { auto it = actor.find(e); if (it == actor.end()) it = actor.insert({e, whose(e)}).first; VP_CHECK(it->second.first >= 0, "an action is performed by an entity that is not of its client"); done[it->second.first][it->second.second].push_back(a.value); } l.actions.clear(); }
        update(srv);
        for (int c = 0; c < clients; ++c) if (joined[c]) {
            for (size_t i = loading[c].size(); i--;) { auto [e, t] = loading[c].front(); loading[c].pop_front(); if (t > 1) loading[c].push_back({e, t - 1}); else if (cli[c].valid(e)) client_asset_ready(cli[c], e); }
            update_network_client(cli[c]); for (auto [e, l] : cli[c].view<action_list<honk>>().each()) l.actions.clear();
            update(cli[c]);
        }
    }
    std::pair<int, int> whose(entt::entity s) { for (int c = 0; c < clients; ++c) if (connected(c)) { auto &m = srv.get<remote_client>(id[c]).entity_map; for (int i = 0; i < NO; ++i) if (own[c][i] != entt::null && m.contains(own[c][i]) && m.at(own[c][i]) == s) return {c, i}; } return {-1, -1}; }
    bool ready(int c) { return connected(c) && cli[c].ctx().get<client_network_context>().client_entity != entt::null; }
    rigidbody_def def(int i, vector3 at) {
        rigidbody_def d; d.mass = scalar(i + 1); d.position = at; material m; m.friction = scalar(0.25) * (i + 1); d.material = m; d.networked = true; d.orientation = normalize(quaternion{scalar(0.1) * i, scalar(0.2), 0, 1});
        switch (i) {
            case 0: d.shape = sphere_shape{scalar(0.5)}; d.sleeping_disabled = true; break;
            case 1: d.shape = box_shape{vector3{scalar(0.5), scalar(0.4), scalar(0.3)}}; d.center_of_mass = vector3{0, scalar(-0.1), 0}; d.sleeping_disabled = true; break;
            case 2: d.kind = rigidbody_kind::rb_static; d.shape = box_shape{vector3{1, scalar(0.4), 1}}; d.material->id = 7; break;
            case 3: d.kind = rigidbody_kind::rb_kinematic; d.shape = capsule_shape{scalar(0.2), scalar(0.3)}; d.collision_group = 5; d.collision_mask = ~2ull; break;
        }
        return d;
    }
    vector3 home(int i) { return vector3{scalar(4 * i), scalar(2), 0}; }
    vector3 home(int c, int i) { return vector3{scalar(4 * i), scalar(2), scalar(10 + 10 * c)}; }

    // --- the same everywhere -------------------------------------------------------------------
    static bool near(const vector3 &a, const vector3 &b) { return std::abs(a.x - b.x) < 1e-4 && std::abs(a.y - b.y) < 1e-4 && std::abs(a.z - b.z) < 1e-4; }
    static bool near(const quaternion &a, const quaternion &b) { return std::abs(a.x - b.x) < 1e-4 && std::abs(a.y - b.y) < 1e-4 && std::abs(a.z - b.z) < 1e-4 && std::abs(a.w - b.w) < 1e-4; }
    static bool near(const matrix3x3 &a, const matrix3x3 &b) { for (int i = 0; i < 3; ++i) if (!near(a.row[i], b.row[i])) return false; return true; }
    template<typename T> static std::vector<entt::entity> strip(T &c) {
        std::vector<entt::entity> v;
        if constexpr (std::is_same_v<T, soft_distance_constraint>) c.applied_spring_impulse = c.applied_damping_impulse = 0;   // each side computes its own
        if constexpr (std::is_base_of_v<constraint_base, T>) { for (auto &e : c.body) { v.push_back(e); e = entt::null; } }
        else if constexpr (std::is_same_v<T, entity_owner>) { v.push_back(c.client_entity); c.client_entity = entt::null; }
        else if constexpr (std::is_same_v<T, child_list>) { v = {c.parent, c.next}; c = {}; }
        else if constexpr (std::is_same_v<T, parent_comp>) { v = {c.child}; c = {}; }
        else if constexpr (std::is_same_v<T, collision_exclusion>) { for (auto &e : c.entity) { v.push_back(e); e = entt::null; } }
        return v;
    }
    template<typename T> void same(int c, entt::entity s, entt::entity l, const std::string &n) {
        auto &r = cli[c]; auto type = entt::type_id<T>().name(); std::string t(type);
        if constexpr (std::is_same_v<T, action_history>) return;
        else {
            VP_CHECK(srv.all_of<T>(s) == r.all_of<T>(l), "%s %s %s on the server but not on client %d", n.c_str(), srv.all_of<T>(s) ? "has" : "has no", t.c_str(), c);
            if constexpr (!std::is_empty_v<T>) if (srv.all_of<T>(s)) {
                T a = srv.get<T>(s), b = r.get<T>(l);
                if constexpr (std::is_base_of_v<vector3, T> || std::is_base_of_v<quaternion, T> || std::is_base_of_v<matrix3x3, T>) {
                    if constexpr (std::is_base_of_v<vector3, T>) VP_CHECK(near(a, b), "%s: %s is %g %g %g on the server and %g %g %g on client %d", n.c_str(), t.c_str(), a.x, a.y, a.z, b.x, b.y, b.z, c);
                    else VP_CHECK(near(a, b), "%s: %s differs on client %d", n.c_str(), t.c_str(), c);
                } else {
                    auto x = strip(a), y = strip(b); auto &m = r.ctx().get<client_network_context>().entity_map;
                    for (size_t i = 0; i < x.size(); ++i) VP_CHECK((x[i] == entt::null || (std::is_same_v<T, entity_owner> && !m.contains(x[i]))) ? y[i] == entt::null : (m.contains(x[i]) && m.at(x[i]) == y[i]), "%s: %s refers to something else on client %d", n.c_str(), t.c_str(), c);
                    bytes p, q; { memory_output_archive o(p); o(a); } { memory_output_archive o(q); o(b); }
                    VP_CHECK(p == q, "%s: %s differs on client %d", n.c_str(), t.c_str(), c);
                }
            }
        }
    }
    template<typename... T> void same_all(int c, entt::entity s, entt::entity l, const std::string &n, const std::tuple<T...> &) { (same<T>(c, s, l, n), ...); same<pedal>(c, s, l, n); same<mass_inv>(c, s, l, n); same<inertia_inv>(c, s, l, n); same<inertia_world_inv>(c, s, l, n); same<origin>(c, s, l, n); }
    std::string name(entt::entity s) {
        for (int i = 0; i < NB; ++i) if (body[i] == s) return "body " + std::to_string(i); if (joint == s) return "joint";
        for (int c = 0; c < clients; ++c) if (joined[c]) { auto &m = cli[c].ctx().get<client_network_context>().entity_map; for (int i = 0; i < NO; ++i) if (own[c][i] != entt::null && m.contains_local(own[c][i]) && m.at_local(own[c][i]) == s) return "body " + std::to_string(i) + " of client " + std::to_string(c); if (ownjoint[c] != entt::null && m.contains_local(ownjoint[c]) && m.at_local(ownjoint[c]) == s) return "joint of client " + std::to_string(c); if (id[c] == s) return "client " + std::to_string(c); }
        if (asset == s) return "asset"; for (int i = 0; i < 2; ++i) if (part[i] == s) return "part " + std::to_string(i); return "an entity";
    }
    // What the server has to share with a client: all of the islands and non-procedural bodies that meet its box.
    std::set<entt::entity> of_interest(int c) {
        auto box = srv.get<aabb_of_interest>(id[c]).aabb; std::set<entt::entity> s;
        for (auto e : srv.view<rigidbody_tag, networked_tag>()) {
            if (!intersect(srv.get<AABB>(e), box)) continue;
            s.insert(e);
            if (!srv.all_of<procedural_tag>(e)) continue;
            for (auto i : srv.view<island>()) { auto &is = srv.get<island>(i); if (is.nodes.contains(e)) { for (auto n : is.nodes) if (srv.all_of<networked_tag>(n)) s.insert(n); for (auto n : is.edges) if (srv.all_of<networked_tag>(n)) s.insert(n); } }
        }
        return s;
    }
    void compare(int c) {
        auto &r = cli[c]; auto &ctx = r.ctx().get<client_network_context>(); auto &cl = srv.get<remote_client>(id[c]);
        VP_CHECK(ctx.client_entity != entt::null && r.valid(ctx.client_entity) && ctx.entity_map.contains(id[c]) && ctx.entity_map.at(id[c]) == ctx.client_entity, "client %d is not known to itself", c);
        { auto &a = srv.ctx().get<settings>(), &b = r.ctx().get<settings>(); VP_CHECK(a.fixed_dt == b.fixed_dt && a.gravity == b.gravity && a.num_solver_velocity_iterations == b.num_solver_velocity_iterations && a.num_solver_position_iterations == b.num_solver_position_iterations && a.num_restitution_iterations == b.num_restitution_iterations && a.num_individual_restitution_iterations == b.num_individual_restitution_iterations, "the settings of client %d are not those of the server", c); VP_CHECK(ctx.allow_full_ownership == cl.allow_full_ownership, "client %d does not know whether it has full ownership", c); }
        auto want = of_interest(c); std::set<entt::entity> have;
        for (auto e : r.view<networked_tag>()) {
            VP_CHECK(ctx.entity_map.contains_local(e), "client %d has a networked entity that the server does not have", c);
            auto s = ctx.entity_map.at_local(e); VP_CHECK(srv.valid(s), "client %d has an entity that is gone from the server", c);
            VP_CHECK(have.insert(s).second, "client %d has %s twice", c, name(s).c_str());
        }
        if (asset != entt::null) { bool any = false; for (auto e : part) any |= want.count(e); if (any) for (auto e : {asset, part[0], part[1]}) want.insert(e); }
        for (auto s : want) VP_CHECK(have.count(s), "client %d does not have %s", c, name(s).c_str());
        auto &aoi = srv.get<aabb_of_interest>(id[c]).entities;
        // An island that lost a body may keep its extent.
        for (auto s : have) VP_CHECK(want.count(s) || (split && aoi.contains(s)), "client %d has %s, which is not of its interest", c, name(s).c_str());
        for (auto s : have) {
            auto l = ctx.entity_map.at(s); auto n = name(s);
            if (s == asset) { VP_CHECK(r.all_of<asset_ref>(l) && r.all_of<asset_linked_tag>(l), "the asset is not there on client %d", c); continue; }
            VP_CHECK(cl.entity_map.contains(l) && cl.entity_map.at(l) == s && cl.entity_map.contains_local(s), "the server does not know what %s is for client %d", n.c_str(), c);
            same_all(c, s, l, n, networked_components);
            if (r.all_of<rigidbody_tag>(l)) VP_CHECK(r.all_of<graph_node>(l) && r.all_of<AABB>(l) == srv.all_of<AABB>(s), "%s is incomplete on client %d", n.c_str(), c);
            if (r.all_of<constraint_tag>(l)) VP_CHECK(r.all_of<graph_edge>(l), "%s is incomplete on client %d", n.c_str(), c);
            if (auto *a = r.try_get<AABB>(l)) { auto &b = srv.get<AABB>(s); VP_CHECK(near(a->min, b.min) && near(a->max, b.max), "%s: the box differs on client %d", n.c_str(), c); }
            bool mine = srv.all_of<entity_owner>(s) && srv.get<entity_owner>(s).client_entity == id[c];
            VP_CHECK(ctx.owned_entities.contains(l) == mine && cl.owned_entities.contains(s) == mine, "client %d and the server do not agree on who owns %s", c, n.c_str());
        }
        ctx.entity_map.each([&](entt::entity s, entt::entity l) { VP_CHECK(srv.valid(s) && r.valid(l), "client %d remembers an entity that is gone", c); });
        for (auto e : ctx.owned_entities) VP_CHECK(r.valid(e), "client %d owns an entity that is gone", c);
        for (auto e : cl.owned_entities) VP_CHECK(srv.valid(e), "client %d owns an entity that is gone from the server", c);
        vp::states();
    }
    // --- operations --------------------------------------------------------------------------------
    std::string path;
    void rest(entt::registry &r, entt::entity e) { if (!r.all_of<linvel>(e)) return; r.replace<linvel>(e, vector3_zero); r.replace<angvel>(e, vector3_zero); }
    int patience = 12;
    void settle() {
        for (int i = 12 - patience; i < 12; ++i) {
            // All that moves stops, where it is ruled.
            if (i < 6) for (auto e : body) if (e != entt::null) rest(srv, e);
            if (i < 6) for (auto e : part) if (e != entt::null) rest(srv, e);
            if (i < 6) for (int c = 0; c < clients; ++c) if (connected(c)) {
                auto &ctx = cli[c].ctx().get<client_network_context>(); for (auto e : ctx.owned_entities) rest(cli[c], e); if (mixed) for (auto e : cli[c].view<networked_tag, rigidbody_tag>()) rest(cli[c], e);
                for (auto e : srv.get<remote_client>(id[c]).owned_entities) if (!ctx.entity_map.contains(e)) rest(srv, e);
            }
            tick(ALL);
            if (EXTRAPOLATE) for (int k = 0; k < 8; ++k) std::this_thread::yield();
        }
    }
    void finish() {
        settle();
        auto anon = [this](entt::entity e) { return std::to_string(entt::to_integral(e)); };
        sim::consistent(srv, anon);
        for (auto e : body) VP_CHECK(e == entt::null || srv.valid(e), "a body of the server is gone");
        if (following && body[0] != entt::null) { auto &b = srv.get<aabb_of_interest>(id[0]).aabb; VP_CHECK(near((b.min + b.max) * scalar(0.5), srv.get<position>(body[0])) && near(b.max - b.min, vector3{4, 4, 4}), "the area of interest does not follow its body"); }
        for (int c = 0; c < clients; ++c) for (int i = 0; i < NO; ++i) if (own[c][i] != entt::null && connected(c) && cli[c].valid(own[c][i])) VP_CHECK(done[c][i] == issued[c][i], "of %zu actions of body %d of client %d, %zu are performed", issued[c][i].size(), i, c, done[c][i].size());
        if (!split && shoved && !ownership && body[0] != entt::null) VP_CHECK(near(get_rigidbody_origin(srv, body[0]), expect[0]), "a client moves a body of the server");
        for (int c = 0; c < clients; ++c) if (connected(c)) { sim::consistent(cli[c], anon); if (c || !forged) compare(c); }
        if (forged) for (int i = 0; i < NO; ++i) if (own[1][i] != entt::null) VP_CHECK(cli[1].valid(own[1][i]), "a client destroys a body of another client");
    }
    bool op(int k) {
        auto mk = [&](int i) { if (body[i] != entt::null) return false; body[i] = make_rigidbody(srv, def(i, home(i))); return true; };
        auto rm = [&](int i) { if (body[i] == entt::null) return false; if (joint != entt::null) split = true; srv.destroy(body[i]); body[i] = entt::null; return true; };
        auto mv = [&](int i, vector3 p) { if (body[i] == entt::null) return false; expect[i] = p; set_rigidbody_origin(srv, body[i], p); update_aabbs(srv, std::vector<entt::entity>{body[i]}); return true; };
        auto kick = [&](int i) { if (body[i] == entt::null) return false; srv.patch<linvel>(body[i], [&](linvel &x) { x.z += scalar(0.5); }); srv.patch<angvel>(body[i], [&](angvel &x) { x.y += 1; }); return true; };
        auto cmk = [&](int c, int i) { if (!ready(c) || own[c][i] != entt::null) return false; auto d = def(i, home(c, i)); own[c][i] = make_rigidbody(cli[c], d); cli[c].emplace<action_history>(own[c][i]); cli[c].emplace<pedal>(own[c][i]); return true; };
        auto crm = [&](int c, int i) { if (!ready(c) || own[c][i] == entt::null || !cli[c].valid(own[c][i])) return false; cli[c].destroy(own[c][i]); own[c][i] = entt::null; return true; };
        auto ckick = [&](int c, int i) { if (!ready(c) || own[c][i] == entt::null || !cli[c].valid(own[c][i])) return false; cli[c].patch<linvel>(own[c][i], [&](linvel &x) { x.z += scalar(0.5); }); cli[c].patch<pedal>(own[c][i], [](pedal &p) { ++p.value; }); return true; };
        auto box = [&](int c, AABB b) { if (!connected(c)) return false; packet::edyn_packet p{packet::set_aabb_of_interest{b.min, b.max}}; up[c].q.push_back({pack(p), true}); return true; };
        auto act = [&](int c, int i) { if (!ready(c) || own[c][i] == entt::null || !cli[c].valid(own[c][i])) return false; cli[c].get_or_emplace<action_list<honk>>(own[c][i]).actions.push_back({++number}); issued[c][i].push_back(number); return true; };
        switch (k) {
            case 0: return true;
            case 22: return act(0, 0);
            case 23: return act(0, 1);
            case 24: { if (asset != entt::null) return false; asset = srv.create(); srv.emplace<asset_ref>(asset).id = "pair"; for (int i = 0; i < 2; ++i) { auto d = def(i, home(i + 2) + vector3{0, 0, 3}); d.networked = false; part[i] = make_rigidbody(srv, d); assign_to_asset<position, orientation, linvel, angvel>(srv, part[i], asset, entt::id_type(i + 40)); } return true; }
            case 25: { if (asset == entt::null) return false; for (auto e : part) srv.destroy(e); srv.destroy(asset); asset = part[0] = part[1] = entt::null; return true; }
            case 26: { if (asset == entt::null) return false; srv.patch<linvel>(part[0], [](linvel &v) { v.z += scalar(0.5); }); return true; }
            case 27: return box(0, {vector3{7, -50, -50}, vector3{10, 50, 50}});    // one of the parts
            case 28: { auto s = own[0][0]; if (s == entt::null || !cli[0].valid(s)) return false; auto &m = cli[0].ctx().get<client_network_context>().entity_map; if (!m.contains_local(s) || !srv.valid(m.at_local(s))) return false; srv.destroy(m.at_local(s)); own[0][0] = entt::null; return true; }
            case 29: { if (!ready(0) || body[0] == entt::null) return false; auto &m = cli[0].ctx().get<client_network_context>().entity_map; if (!m.contains(body[0])) return false; expect[0] = get_rigidbody_origin(srv, body[0]); shoved = true; cli[0].patch<position>(m.at(body[0]), [](position &p) { p.y += 1; }); return true; }
            case 1: return mk(0);
            case 2: return mk(1);
            case 3: return mk(2);
            case 4: return mk(3);
            case 5: return rm(0);
            case 6: return rm(2);
            case 7: return mv(0, home(0) + vector3{0, 1, 0});
            case 8: return mv(2, home(2) + vector3{0, 1, 0});
            case 9: return kick(0);
            case 10: { if (joint != entt::null || body[0] == entt::null || body[1] == entt::null) return false; auto e = make_constraint<soft_distance_constraint>(srv, body[0], body[1], [](soft_distance_constraint &con) { con.distance = 4; con.stiffness = con.damping = 0; con.pivot[1] = vector3{0, scalar(0.25), 0}; }); joint = e; srv.emplace<networked_tag>(e); return true; }
            case 11: { if (joint == entt::null || !srv.valid(joint)) return false; split = true; srv.destroy(joint); joint = entt::null; return true; }
            case 12: return cmk(0, 0);
            case 13: return cmk(0, 1);
            case 14: return crm(0, 0);
            case 15: return ckick(0, 0);
            case 16: { if (ownjoint[0] != entt::null || own[0][0] == entt::null || own[0][1] == entt::null || !cli[0].valid(own[0][0]) || !cli[0].valid(own[0][1])) return false; auto e = make_constraint<soft_distance_constraint>(cli[0], own[0][0], own[0][1], [](soft_distance_constraint &con) { con.distance = 3; con.stiffness = con.damping = 0; con.pivot[0] = vector3{0, scalar(0.25), 0}; }); ownjoint[0] = e; cli[0].emplace<networked_tag>(e); return true; }
            case 17: return cmk(1, 0);
            case 18: return box(0, {vector3{-2, -2, -2}, vector3{2, 4, 2}});
            case 19: return box(0, {vector3{-50, -50, -50}, vector3{50, 50, 50}});
            case 20: { if (!connected(1)) return false; leave(1); return true; }
            case 30: {   // what a client does not own
                if (!ready(0)) return false;
                packet::destroy_entity p; p.timestamp = clk<1>(); auto &m = cli[0].ctx().get<client_network_context>().entity_map;
                for (auto e : cli[0].view<networked_tag>()) if (m.contains_local(e) && !cli[0].ctx().get<client_network_context>().owned_entities.contains(e)) p.entities.push_back(e);
                p.entities.push_back(entt::entity{12345}); up[0].q.push_back({pack(packet::edyn_packet{p}), true}); forged = true; return p.entities.size() > 1;
            }
            case 31: { if (body[0] == entt::null || !connected(0)) return false; srv.emplace_or_replace<aabb_oi_follow>(id[0]).entity = body[0]; auto &b = srv.get<aabb_of_interest>(id[0]).aabb; b = {vector3{-2, -2, -2}, vector3{2, 2, 2}}; following = true; return true; }
            case 32: return mv(0, vector3{4, scalar(3.5), 0});
            case 33: { if (!connected(0)) return false; server_set_allow_full_ownership(srv, id[0], !srv.get<remote_client>(id[0]).allow_full_ownership); return true; }
            case 34: { if (nojoint != entt::null || body[0] == entt::null || body[2] == entt::null) return false; nojoint = srv.create(); make_constraint<null_constraint>(srv, nojoint, body[0], body[2]); srv.emplace<networked_tag>(nojoint); return true; }
            case 35: { if (!mk(0) || !mk(1) || !mk(2)) return false; srv.emplace<parent_comp>(body[0]).child = body[1]; auto &a = srv.emplace<child_list>(body[1]); a.parent = body[0]; a.next = body[2]; auto &b = srv.emplace<child_list>(body[2]); b.parent = body[0]; return true; }
            case 36: { if (!ready(0) || own[0][0] == entt::null || own[0][1] == entt::null || !cli[0].valid(own[0][0]) || !cli[0].valid(own[0][1])) return false; auto e = cli[0].create(); make_constraint<null_constraint>(cli[0], e, own[0][0], own[0][1]); cli[0].emplace<networked_tag>(e); return true; }
            case 37: { if (!ready(0) || own[0][0] == entt::null || !cli[0].valid(own[0][0])) return false; set_rigidbody_origin(cli[0], own[0][0], home(0, 0) + vector3{0, 2, 0}); return true; }
            case 38: { if (!ready(0) || own[0][1] != entt::null) return false; cmk(0, 1); if (own[0][0] != entt::null && cli[0].valid(own[0][0])) { auto e = cli[0].create(); make_constraint<null_constraint>(cli[0], e, own[0][0], own[0][1]); cli[0].emplace<networked_tag>(e); } return crm(0, 1); }
            case 39: { if (!ready(0) || own[0][0] == entt::null || !cli[0].valid(own[0][0])) return false; auto &m = cli[0].ctx().get<client_network_context>().entity_map; if (body[0] == entt::null || !m.contains(body[0])) return false; auto e = make_constraint<soft_distance_constraint>(cli[0], own[0][0], m.at(body[0]), [](soft_distance_constraint &con) { con.distance = 3; con.stiffness = con.damping = 0; }); cli[0].emplace<networked_tag>(e); split = mixed = true; return true; }
            case 21: { if (body[0] == entt::null) return false; set_rigidbody_friction(srv, body[0], scalar(0.77)); srv.patch<material>(body[0]); return true; }
        }
        return false;
    }
};
const char *OP[] = {"wait", "make body 0", "make body 1", "make body 2", "make body 3", "destroy body 0", "destroy body 2", "move body 0", "move body 2", "kick body 0", "make joint", "destroy joint", "client 0 makes body 0", "client 0 makes body 1", "client 0 destroys body 0", "client 0 kicks body 0", "client 0 makes joint", "client 1 makes body 0", "client 0 looks near", "client 0 looks far", "client 1 leaves", "change friction", "client 0 acts with body 0", "client 0 acts with body 1", "make asset", "destroy asset", "kick part 0", "client 0 looks at part 0", "destroy body 0 of client 0", "client 0 shoves body 0", "client 0 destroys what it does not own", "client 0 follows body 0", "move body 0 to body 1", "change full ownership", "connect bodies 0 and 2", "make a family", "client 0 connects its bodies", "client 0 moves its body 0", "client 0 makes and destroys body 1", "client 0 connects its body 0 to body 0"};
struct step { int op, mode; };
int ASSET_MODE = 0, PATIENCE = 12, LEAD = 4;
void play(int clients, bool ownership, const std::vector<int> &before, const std::vector<step> &h) {
    std::string d = std::to_string(clients) + " clients, " + (ownership ? "full ownership; " : "; "); for (auto o : before) d += std::string(OP[o]) + ", "; d += "| "; for (auto s : h) d += std::string(OP[s.op]) + MODE[s.mode] + ", "; if (!EXTRAPOLATE) vp::describer() = [d] { return d; };
    net w(clients, ownership); w.asset_mode = ASSET_MODE; w.patience = PATIENCE;
    for (int c = 0; c < clients; ++c) w.join(c);
    if (!before.empty()) { for (int i = 0; i < LEAD; ++i) w.tick(ALL); for (auto o : before) { VP_CHECK(w.op(o), "cannot %s", OP[o]); w.tick(ALL); } for (int i = 0; i < LEAD; ++i) w.tick(ALL); }
    for (auto s : h) { if (!w.op(s.op)) return; w.tick(s.mode); }
    w.finish();
}
void all(int clients, const std::vector<int> &before, const std::vector<int> &ops, const std::vector<int> &modes, int depth) {
    for (int ownership = 0; ownership < 2; ++ownership) {
        size_t n = ops.size() * modes.size(), total = 1; for (int i = 0; i < depth; ++i) total *= n;
        for (size_t k = 0; k < total; ++k) {
            if (!vp::begin()) continue;
            std::vector<step> h; size_t x = k; for (int i = 0; i < depth; ++i, x /= n) h.push_back({ops[x % n % ops.size()], modes[x % n / ops.size()]});
            play(clients, ownership, before, h);
        }
    }
}
const std::vector<int> ANY = {ALL, UPLATE, DOWNLATE, BOTHLATE, LOSE, SNAPLATE};
}
#ifndef NET_EXTRAPOLATE
VP_SCENARIO(net_server) { all(1, {1, 2, 3}, {0, 4, 5, 6, 7, 8, 9, 10, 21}, ANY, vp::thorough() ? 3 : 2); }
VP_SCENARIO(net_client) { all(1, {1, 12}, {0, 5, 9, 13, 14, 15, 16, 2, 38, 37}, ANY, vp::thorough() ? 3 : 2); }
VP_SCENARIO(net_interest) { all(1, {1, 2, 3, 10}, {0, 18, 19, 5, 7, 8, 11}, ANY, vp::thorough() ? 3 : 2); }
VP_SCENARIO(net_two) { all(2, {1, 12, 17}, {0, 5, 9, 14, 15, 20, 13}, ANY, vp::thorough() ? 3 : 2); }
VP_SCENARIO(net_join) { all(1, {}, {0, 1, 2, 3, 5, 9, 12}, ANY, 3); }
VP_SCENARIO(net_in_out) { all(1, {1, 2, 3}, {0, 18, 19}, ANY, 3); }
VP_SCENARIO(net_in_out_own) { all(1, {12, 13, 16, 1}, {0, 18, 19, 15, 14}, {ALL, UPLATE, DOWNLATE, BOTHLATE}, vp::thorough() ? 4 : 3); }
VP_SCENARIO(net_make_destroy) { all(2, {}, {0, 1, 5, 3, 6, 12, 14}, {ALL, UPLATE, DOWNLATE, BOTHLATE}, vp::thorough() ? 4 : 3); }
VP_SCENARIO(net_actions) { all(1, {12, 13}, {0, 22, 23, 14, 28}, ANY, 3); }
VP_SCENARIO(net_owned) { all(2, {12, 13, 16}, {0, 14, 28, 12, 17, 20, 15}, {ALL, BOTHLATE}, vp::thorough() ? 4 : 3); }
VP_SCENARIO(net_shove) { all(2, {1, 2, 17}, {0, 29, 5, 7}, ANY, vp::thorough() ? 3 : 2); }
VP_SCENARIO(net_forged) { all(2, {1, 2, 12, 17}, {0, 30, 5, 17, 15, 9}, ANY, 2); }
VP_SCENARIO(net_follow) { all(1, {1, 2}, {0, 31, 32, 5, 7, 9, 3}, ANY, vp::thorough() ? 4 : 3); }
VP_SCENARIO(net_ownership) { all(2, {1, 12, 17}, {0, 33, 9, 5, 14}, ANY, 2); }
VP_SCENARIO(net_null) { all(1, {1, 2, 3, 12, 13}, {0, 34, 36, 5, 6, 14, 9, 18}, {ALL, UPLATE, DOWNLATE, BOTHLATE}, 2); }
VP_SCENARIO(net_mixed) { all(2, {1, 12, 17}, {0, 39, 5, 14, 9, 28}, ANY, vp::thorough() ? 3 : 2); }
VP_SCENARIO(net_family) { all(1, {35}, {0, 7, 8, 9, 21, 12}, ANY, 2); }
VP_SCENARIO(net_assets) { for (ASSET_MODE = 0; ASSET_MODE < 3; ++ASSET_MODE) all(1, {24}, {0, 26, 18, 19, 27, 25, 1}, {ALL, DOWNLATE, BOTHLATE, LOSE}, 2); ASSET_MODE = 0; }
VP_SCENARIO(net_assets_late) { for (ASSET_MODE = 0; ASSET_MODE < 3; ++ASSET_MODE) all(1, {}, {0, 24, 26, 18, 19, 25}, {ALL, BOTHLATE}, 3); ASSET_MODE = 0; }
#endif
