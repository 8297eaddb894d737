// How much is simulated for any history of updates, pauses and changes of settings.
#include "simworld.hpp"
#include "edyn/comp/present_orientation.hpp"
#include "edyn/comp/present_position.hpp"
#include "edyn/context/step_callback.hpp"
#include "edyn/math/quaternion.hpp"
using namespace edyn;
namespace {
int pre = 0, post = 0; double pre_x = 0, post_x = 0; entt::entity watched;
void on_pre(entt::registry &r) { VP_CHECK(pre == post, "a step started before another ended"); ++pre; pre_x = r.get<position>(watched).x; }
void on_post(entt::registry &r) { ++post; VP_CHECK(pre == post, "a step ended that did not start"); post_x = r.get<position>(watched).x; }
const double DT = 1. / 64;      // exact in binary, as are all times below
struct op { int k; double v; };
const char *NAMES[] = {"update after", "pause", "resume", "step after", "fixed dt", "max steps", "push"};
std::string show(const std::vector<op> &s) { std::string r; for (auto &o : s) { char b[64]; std::snprintf(b, sizeof b, "%s%s", r.empty() ? "" : ", ", NAMES[o.k]); r += b; if (o.k != 1 && o.k != 2 && o.k != 6) { std::snprintf(b, sizeof b, " %g/64", o.v * 64); if (o.k == 5) std::snprintf(b, sizeof b, " %g", o.v); r += b; } } return r; }
void run(const std::vector<op> &seq, execution_mode mode, double t0) {
    entt::registry reg; init_config cfg; cfg.execution_mode = mode; cfg.timestamp = t0; cfg.fixed_dt = scalar(DT); cfg.enqueue_task = &sim::run_now; cfg.enqueue_task_wait = &sim::run_wait;
    attach(reg, cfg); set_gravity(reg, vector3_zero);
    set_pre_step_callback(reg, &on_pre); set_post_step_callback(reg, &on_post); pre = post = 0;
    rigidbody_def d; d.mass = 1; d.inertia = matrix3x3_identity; d.linvel = vector3{1, -2, scalar(0.5)}; d.angvel = vector3{0, 2, 0}; d.sleeping_disabled = true;
    d.gravity = vector3_zero;
    auto moving = make_rigidbody(reg, d); watched = moving;
    d.linvel = d.angvel = vector3_zero; d.gravity = vector3{0, -8, 0}; d.position = vector3{50, 0, 0}; auto falling = make_rigidbody(reg, d);
    d.gravity.reset(); d.kind = rigidbody_kind::rb_kinematic; d.position = vector3{0, 0, 50}; d.linvel = vector3{3, 0, 0}; auto kin = make_rigidbody(reg, d);
    // The model.
    double now = t0, last = t0, acc = 0, dt = DT; bool paused = false; unsigned cap = get_max_steps_per_update(reg);
    long steps = 0; double x = 0, vx = 1, angle = 0, fall = 0, vfall = 0;
    auto one = [&] { ++steps; x += vx * dt; angle += 2 * dt; vfall -= 8 * dt; fall += vfall * dt; };
    double px = 0, pangle = 0, pfall = 0;
    for (auto &o : seq) {
        vp::transitions();
        switch (o.k) {
            case 0: {
                now += o.v; update(reg, now);
                if (paused) { last = now; px = x; pangle = angle; pfall = fall; }
                else {
                    acc += now - last; last = now;
                    auto n = long(std::floor(acc / dt)); acc -= double(n) * dt;
                    for (long i = 0; i < std::min<long>(n, cap); ++i) one();
                    px = x + vx * (acc - dt); pangle = angle + 2 * (acc - dt); pfall = fall + vfall * (acc - dt);
                }
                auto pp = reg.get<present_position>(moving); auto po = reg.get<present_orientation>(moving);
                VP_CHECK(std::abs(pp.x - px) < 1e-4, "presented at %.9g instead of %.9g", double(pp.x), px);
                VP_CHECK(std::abs(reg.get<present_position>(falling).y - pfall) < 1e-4, "falling body presented at %.9g instead of %.9g", double(reg.get<present_position>(falling).y), pfall);
                VP_CHECK(std::abs(std::abs(po.w) - std::abs(std::cos(pangle / 2))) < 1e-3 && std::abs(std::abs(po.y) - std::abs(std::sin(pangle / 2))) < 1e-3, "presented at angle %g (w %g)", pangle, double(po.w));
                break;
            }
            case 1: set_paused(reg, true); paused = true; acc = 0; break;
            case 2: set_paused(reg, false); paused = false; acc = 0; break;
            case 3: if (!paused) break; now += o.v; step_simulation(reg, now); last = now; one(); break;
            case 4: set_fixed_dt(reg, scalar(o.v)); dt = o.v; break;
            case 5: set_max_steps_per_update(reg, unsigned(o.v)); cap = unsigned(o.v); break;
            case 6: rigidbody_apply_impulse(reg, moving, vector3{1, 0, 0}, vector3_zero); vx += 1; break;
        }
        vp::states();
        VP_CHECK(is_paused(reg) == paused, "pausing is not reported");
        VP_CHECK(pre == steps && post == steps, "%d steps were begun and %d ended instead of %ld", pre, post, steps);
        auto p = reg.get<position>(moving); auto q = reg.get<orientation>(moving);
        VP_CHECK(std::abs(p.x - x) < 1e-4, "at %.9g instead of %.9g after %ld steps", double(p.x), x, steps);
        VP_CHECK(std::abs(std::abs(q.w) - std::abs(std::cos(angle / 2))) < 1e-3, "turned to w %g instead of angle %g", double(q.w), angle);
        VP_CHECK(std::abs(reg.get<position>(falling).y - fall) < 1e-4, "fell to %.9g instead of %.9g", double(reg.get<position>(falling).y), fall);
        auto k = reg.get<position>(kin); VP_CHECK(k.x == 0 && k.z == 50, "a kinematic body moved on its own");
        vp::nontrivial(steps > 0);
    }
    detach(reg);
}
void all(const std::vector<op> &ops, int depth, execution_mode mode, double t0) {
    size_t total = 1; for (int i = 0; i < depth; ++i) total *= ops.size();
    for (size_t code = 0; code < total; ++code) {
        if (!vp::begin()) continue;
        std::vector<op> seq; size_t c = code; for (int i = 0; i < depth; ++i, c /= ops.size()) seq.push_back(ops[c % ops.size()]);
        vp::describer() = [&] { return show(seq); };
        run(seq, mode, t0);
        vp::describer() = nullptr;
    }
}
}
VP_SCENARIO(updates) { all({{0, 0}, {0, DT / 4}, {0, DT * 0.75}, {0, DT}, {0, DT * 2.5}, {0, DT * 30}, {1, 0}, {2, 0}, {3, DT / 2}, {6, 0}}, vp::thorough() ? 6 : 5, execution_mode::sequential, 0); }
VP_SCENARIO(changes) { all({{0, DT / 4}, {0, DT * 1.5}, {0, DT * 7}, {1, 0}, {2, 0}, {3, DT}, {4, DT / 2}, {4, DT * 2}, {5, 3}, {5, 0}, {5, 40}}, vp::thorough() ? 6 : 5, execution_mode::sequential, 1024); }
VP_SCENARIO(parallel) { all({{0, 0}, {0, DT * 0.75}, {0, DT}, {0, DT * 30}, {1, 0}, {2, 0}, {3, DT / 2}}, vp::thorough() ? 6 : 4, execution_mode::sequential_multithreaded, 16); }
