// Interface of the deterministic scheduler (sched.cpp).
#ifndef SCHED_API_HPP
#define SCHED_API_HPP
#include <stdint.h>
namespace sched {
enum { MAXT = 64, MAXD = 1 << 16 };
// what the parent process sees (shared memory)
struct Shared {
    volatile long steps;          // progress
    volatile int ndec;            // decisions taken
    volatile int stuck;           // 1 deadlock, 2 no end in sight, 3 computes for ever, 4 stranded tasks
    unsigned char nopt[MAXD];     // options at each decision
    unsigned char cur[MAXD];      // 1: option 0 is to let the running thread go on
    unsigned char sel[MAXD];      // option taken
    int nprefix;
    unsigned char prefix[MAXD];   // options to take first
};
enum Mode { RANDOM, PCT, DFS };
// manage this thread and those it creates; one in `plain` plain accesses is a scheduling point (0: none)
void on(Mode m, uint64_t seed, Shared* s, int pct_len, int depth, int spurious, int plain);
void off();
void stuck(int why);      // report and end the process
void idle();              // let all others run first
bool others_can_run();
int alive();              // created threads that have not finished
}
#endif
