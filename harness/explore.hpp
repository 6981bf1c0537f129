// Runs one program many times, each in a process of its own under a chosen
// schedule, and keeps the distinct event sequences.
#ifndef EXPLORE_HPP
#define EXPLORE_HPP
#include <sys/mman.h>
#include <sys/wait.h>
#include <signal.h>
#include <stdarg.h>
#include <unistd.h>
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <set>
#include <string>
#include <vector>
#include "sched_api.hpp"
namespace ex {
struct Ev { char s[120]; };
enum { MAXEV = 8000 };
struct Mem {
    sched::Shared sh;
    std::atomic<long> n;
    std::atomic<int> over;
    Ev ev[MAXEV];
    long ntext;
    char text[1 << 24];
};
static Mem* mem;
// one event; safe from any thread, ordered consistently with what happens before what
static void log(const char* f, ...) {
    va_list ap;
    va_start(ap, f);
    long k = mem->n.fetch_add(1, std::memory_order_relaxed);
    if (k < MAXEV) vsnprintf(mem->ev[k].s, sizeof mem->ev[k].s, f, ap);
    va_end(ap);
}
struct Stats { long runs = 0, uncontrolled = 0, stuck = 0, dfs_complete = 0; };

static std::string collect(int status) {
    std::string t(mem->text, size_t(mem->ntext));
    long n = mem->n.load();
    if (n > MAXEV) n = MAXEV;
    for (long i = 0; i < n; ++i) if (mem->ev[i].s[0]) { t += mem->ev[i].s; t += '\n'; }
    if (mem->sh.stuck) t += "{\"e\":\"Stuck\",\"why\":" + std::to_string(mem->sh.stuck) + "}\n";
    else if (WIFSIGNALED(status)) t += "{\"e\":\"Died\",\"sig\":" + std::to_string(WTERMSIG(status)) + "}\n";
    else if (WEXITSTATUS(status) != 0) t += "{\"e\":\"Died\",\"status\":" + std::to_string(WEXITSTATUS(status)) + "}\n";
    else if (!mem->over.load()) t += "{\"e\":\"Died\",\"status\":0}\n";
    return t;
}
static bool spinning(pid_t p) {   // is some thread of the process computing?
    std::string cmd = "/proc/" + std::to_string(p) + "/task";
    FILE* f = popen(("cat " + cmd + "/*/stat 2>/dev/null").c_str(), "r");
    char line[1024];
    bool r = false;
    while (f && fgets(line, sizeof line, f)) { char* q = strrchr(line, ')'); if (q && q[2] == 'R') r = true; }
    if (f) pclose(f);
    return r;
}
// a whole text at once, by the last thread
static void text(const std::string& s) {
    mem->ntext = long(s.size() < sizeof mem->text ? s.size() : sizeof mem->text);
    memcpy(mem->text, s.data(), size_t(mem->ntext));
}
// 0: ended, 1: hangs computing, 2: hangs in a way the scheduler does not control
static int once(const std::function<void()>& child, int& status, int patience) {
    mem->n = 0; mem->over = 0; mem->sh.steps = 0; mem->sh.stuck = 0; mem->sh.ndec = 0; mem->ntext = 0;
    memset(mem->ev, 0, sizeof(Ev) * 64);
    fflush(nullptr);
    pid_t p = fork();
    if (p == 0) { child(); _exit(97); }
    long last = -1, lastn = -1;
    int idle = 0;
    for (long t = 0;; ++t) {
        if (waitpid(p, &status, WNOHANG) == p) return 0;
        usleep(t < 200 ? 50 : t < 400 ? 500 : 20000);
        if (t < 400) continue;
        if (mem->sh.steps != last || mem->n.load() != lastn) { last = mem->sh.steps; lastn = mem->n.load(); idle = 0; }
        else if (++idle > patience * 50) {
            bool s = false;
            for (int i = 0; i < 20 && !s; ++i) { s = spinning(p); usleep(10000); }
            kill(p, SIGKILL);
            waitpid(p, &status, 0);
            return s ? 1 : 2;
        }
    }
}
}  // namespace ex
#endif
