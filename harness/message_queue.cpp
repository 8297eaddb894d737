// Message queues: messages arrive exactly once, in order, typed, under every schedule.
#include "jobs.hpp"
#include "edyn/parallel/message_dispatcher.hpp"
#include <string>
using namespace edyn;
namespace {
struct ping { int from, seq; const long *payload; };
struct text { std::string s; };
struct other { int x; };
struct sink {
    std::vector<ping> pings; std::vector<std::string> texts, senders; std::string order;
    void on_ping(message<ping> &m) { pings.push_back(m.content); senders.push_back(m.sender.value); order += 'p'; mc::check(*m.content.payload == m.content.seq + 100, "a receiver does not see what was written before a message was sent"); }
    void on_text(message<text> &m) { texts.push_back(m.content.s); order += 't'; }
};
struct counter { mc::raw_counter n; void inc() { n.add(1); } };
struct cfg { int senders, msgs; bool texts; int updates, makers, clearer, pb; };
void body(const cfg &c) {
    fresh<message_dispatcher> d;
    auto h = d->make_queue<ping, text>("main"); sink s; counter pushed;
    h.template sink<ping>().template connect<&sink::on_ping>(s); h.template sink<text>().template connect<&sink::on_text>(s);
    h.push_sink().template connect<&counter::inc>(pushed);
    mc::check(h.identifier.value == "main", "the identifier of a queue is not its name");
    std::vector<long> payload(c.senders * c.msgs);
    auto send = [&](int who) {
        for (int k = 0; k < c.msgs; ++k) {
            long *p = &payload[who * c.msgs + k]; *p = k + 100;
            d->template send<ping>({"main"}, {"sender " + std::to_string(who)}, who, k, p);
            if (c.texts) d->template send<text>({"main"}, {"t"}, std::to_string(who) + ":" + std::to_string(k) + std::string(30, 'x'));
            d->template send<other>({"main"}, {}, 3); d->template send<ping>({"nobody"}, {}, who, k, p);
        }
    };
    std::vector<std::thread> ts;
    for (int i = 0; i < c.senders; ++i) ts.emplace_back(send, i);
    for (int i = 0; i < c.makers; ++i) ts.emplace_back([&, i] { auto q = d->template make_queue<text>("extra" + std::to_string(i)); d->template send<text>({"extra" + std::to_string(i)}, {}, "hello"); sink e; q.template sink<text>().template connect<&sink::on_text>(e); q.update(); mc::check(e.texts.size() == 1 && e.texts[0] == "hello", "a message to a new queue is lost"); });
    for (int i = 0; i < c.updates; ++i) h.update();
    for (auto &t : ts) t.join();
    h.update();
    mc::check(int(s.pings.size()) == c.senders * c.msgs, "%zu messages are received of %d", s.pings.size(), c.senders * c.msgs);
    std::vector<int> next(c.senders, 0);
    for (size_t i = 0; i < s.pings.size(); ++i) { auto &p = s.pings[i]; mc::check(p.seq == next[p.from], "messages of a sender are received out of order, twice or not at all"); ++next[p.from]; mc::check(s.senders[i] == "sender " + std::to_string(p.from), "a message has another sender"); }
    if (c.texts) {
        mc::check(int(s.texts.size()) == c.senders * c.msgs, "%zu texts are received of %d", s.texts.size(), c.senders * c.msgs);
        std::vector<int> tn(c.senders, 0); for (auto &t : s.texts) { int who = t[0] - '0', k = t[2] - '0'; mc::check(k == tn[who]++ && t.size() == 33, "texts of a sender are out of order or damaged"); }
    } else mc::check(s.texts.empty(), "texts are received that were not sent");
    mc::check(pushed.n.get() == c.senders * c.msgs * (c.texts ? 3 : 2), "the push signal is not published once per message");
    size_t n = s.order.size(); h.update(); mc::check(s.order.size() == n, "a message is received twice");
}
void clear_body(const cfg &c) {
    fresh<message_dispatcher> d; d->make_queue<text>("a"); d->make_queue<text>("b");
    std::vector<std::thread> ts;
    for (int i = 0; i < c.senders; ++i) ts.emplace_back([&] { for (int k = 0; k < c.msgs; ++k) { d->template send<text>({"a"}, {}, "x"); d->template send<text>({"b"}, {}, "y"); } });
    for (int i = 0; i < c.makers; ++i) ts.emplace_back([&] { d->template make_queue<text>("c"); });
    d->clear_queues();
    for (auto &t : ts) t.join();
    d->clear_queues();
    auto q = d->template make_queue<text>("a"); sink s; q.template sink<text>().template connect<&sink::on_text>(s); q.update();
    mc::check(s.texts.empty(), "a queue made after clearing holds old messages");
}
// Function-local statics of the code under test are initialised before exploring.
void warm_up() {
    message_dispatcher d; auto h = d.make_queue<ping, text>("a"); sink s; long p = 100;
    h.sink<ping>().connect<&sink::on_ping>(s); h.sink<text>().connect<&sink::on_text>(s);
    d.send<ping>({"a"}, {}, 0, 0, &p); d.send<text>({"a"}, {}, "x"); d.send<other>({"a"}, {}, 1); h.update();
}
void go(const cfg &c) {
    if (!vp::begin()) return;
    warm_up();
    vp::describe("%s: %d senders of %d messages%s, %d concurrent updates, %d threads that make queues, %d preemptions", c.clearer ? "clear" : "receive", c.senders, c.msgs, c.texts ? " of two types" : "", c.updates, c.makers, c.pb);
    mc::options o; o.preemptions = c.pb;
    auto r = mc::explore(o, [&] { if (c.clearer) clear_body(c); else body(c); });
    cap_note(r, vp::st().desc);
}
}
VP_SCENARIO(messages_received) {
    bool t = vp::thorough();
    go({1, 1, false, 1, 0, 0, t ? 5 : 4});
    go({1, 2, true, 2, 0, 0, t ? 5 : 4});
    go({2, 1, false, 1, 0, 0, t ? 5 : 4});
    go({2, 2, false, 2, 0, 0, t ? 4 : 3});
    go({2, 1, true, 2, 0, 0, t ? 4 : 3});
    go({3, 1, false, 1, 0, 0, t ? 4 : 3});
    go({1, 1, false, 1, 1, 0, t ? 5 : 4});
    go({1, 1, true, 1, 2, 0, t ? 4 : 3});
}
VP_SCENARIO(queues_cleared) {
    bool t = vp::thorough();
    go({1, 1, false, 0, 0, 1, t ? 5 : 4});
    go({2, 1, false, 0, 0, 1, t ? 5 : 4});
    go({1, 1, false, 0, 1, 1, t ? 5 : 4});
    go({1, 2, false, 0, 1, 1, t ? 5 : 4});
}
// Sequential histories: all sequences of sends and updates on two queues.
VP_SCENARIO(message_histories) {
    const int ops = 8, depth = vp::thorough() ? 6 : 5;
    for (long code = 0, total = long(std::pow(ops, depth) + 0.5); code < total; ++code) {
        if (!vp::begin()) continue;
        vp::describer() = [&] { std::string r = "operations"; long c = code; for (int i = 0; i < depth; ++i, c /= ops) r += " " + std::to_string(c % ops); return r; };
        message_dispatcher d; auto a = d.make_queue<ping, text>("a"); auto b = d.make_queue<text>("b"); sink sa, sb;
        a.sink<ping>().connect<&sink::on_ping>(sa); a.sink<text>().connect<&sink::on_text>(sa); b.sink<text>().connect<&sink::on_text>(sb);
        std::vector<std::pair<char, int>> qa, qb; std::vector<std::pair<char, int>> ra, rb; int n = 0; long c = code;
        for (int i = 0; i < depth; ++i, c /= ops, ++n) switch (c % ops) {
        case 0: { static long p[8]; p[n] = n + 100; d.send<ping>({"a"}, {"s"}, 0, n, &p[n]); } qa.push_back({'p', n}); break;
        case 1: d.send<text>({"a"}, {}, std::to_string(n)); qa.push_back({'t', n}); break;
        case 2: d.send<other>({"a"}, {}, n); break;
        case 3: d.send<text>({"b"}, {}, std::to_string(n)); qb.push_back({'t', n}); break;
        case 4: { static long p = 0; d.send<ping>({"b"}, {}, 0, n, &p); } break; // not listened to
        case 5: a.update(); for (auto &x : qa) ra.push_back(x); qa.clear(); break;
        case 6: b.update(); for (auto &x : qb) rb.push_back(x); qb.clear(); break;
        case 7: d.make_queue<text>("a"); break; // already there: keeps its messages
        }
        auto match = [&](sink &s, std::vector<std::pair<char, int>> &r, const char *name) {
            VP_CHECK(s.order.size() == r.size(), "queue %s delivers %zu messages instead of %zu", name, s.order.size(), r.size());
            size_t p = 0, t = 0; for (size_t i = 0; i < r.size(); ++i) { VP_CHECK(s.order[i] == r[i].first, "queue %s delivers another type or order", name); if (r[i].first == 'p') VP_CHECK(s.pings[p++].seq == r[i].second, "queue %s: content", name); else VP_CHECK(s.texts[t++] == std::to_string(r[i].second), "queue %s: content", name); }
        };
        match(sa, ra, "a"); match(sb, rb, "b"); vp::states(); vp::transitions(depth); vp::nontrivial(!ra.empty());
    }
}
