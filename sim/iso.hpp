// Scheduler of the isolation world: sessions run one at a time; who runs next is decided by the
// scenario at memory accesses (threads) or at step boundaries (fibers on one thread).
#pragma once
#include <cstdint>
#include <functional>
#include <vector>
namespace iso
{
struct Counts
{
    uint64_t any = 0, hot = 0, step = 0; // accesses, accesses to process-wide data, session steps
};
struct Switch
{
    int who;      // session that is preempted
    char kind;    // 'a' before its at-th access, 'h' before its at-th process-wide access, 's' at its at-th step
    uint64_t at;
    int to;
};
struct Plan
{
    bool fibers = false;
    std::vector<Switch> sw;
};
void step(); // a session announces a step boundary
// runs the sessions to their end; returns the counts of each and the number of switches that took place
std::vector<Counts> run(const std::vector<std::function<void()>>& sessions, const Plan& plan, std::vector<long>& done);
} // namespace iso
