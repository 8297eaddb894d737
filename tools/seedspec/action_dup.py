ID = "action_dup"
PROPERTY = "P13"
NEEDS = "the receiver executes and erases all pending actions, then an overlapping packet repeats an action it already took over"
BREAKS = "an action that was already executed is taken over and executed again"
EDITS = [("include/edyn/networking/comp/action_history.hpp",
"""        auto other_begin = std::find_if(other.entries.begin(), other.entries.end(),
                                        [&](auto &&entry) { return entry.timestamp > last_timestamp; });""",
"""        last_timestamp = entries.empty() ? 0 : entries.back().timestamp;
        auto other_begin = std::find_if(other.entries.begin(), other.entries.end(),
                                        [&](auto &&entry) { return entry.timestamp > last_timestamp; });""")]
DEMO = r'''
#include "edyn/networking/comp/action_history.hpp"
#include <cstdio>
int main() {
    edyn::action_history client, server;
    client.entries.emplace_back(1.0, 0, std::vector<uint8_t>{1});
    server.merge(client);
    server.erase_until(2.0); // executed
    client.entries.emplace_back(3.0, 0, std::vector<uint8_t>{3});
    server.merge(client); // the packet repeats action 1
    printf("%zu pending\n", server.entries.size());
    return server.entries.size() == 1 && server.entries[0].timestamp == 3.0 ? 0 : 1;
}
'''
