// Recorder for the thread pool: executes programs (clients submitting tasks,
// tasks submitting tasks, process exit) on the real pool under many schedules.
#include "explore.hpp"
#include <DedicatedThreadPool.hpp>
#include <fstream>
#include <future>
#include <iostream>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <thread>

struct Task { char kind; int val; std::vector<int> kids; };
struct Program {
    int id = 0, nw = 1;
    std::string type;
    std::vector<Task> tasks;
    std::vector<std::vector<std::pair<char, int>>> clients;
};
static Program prog;
static bool controlled;
static std::atomic<int> submitted, finished;

struct Boom { int v; };
template <typename T> struct Val;
template <> struct Val<int> { static int make(int v) { return v; } static int get(std::future<int>& f) { return f.get(); } };
template <> struct Val<void> { static void make(int) {} static int get(std::future<void>& f) { f.get(); return 0; } };
template <> struct Val<std::unique_ptr<int>> {
    static std::unique_ptr<int> make(int v) { return std::unique_ptr<int>(new int(v)); }
    static int get(std::future<std::unique_ptr<int>>& f) { auto p = f.get(); return p ? *p : -999; }
};

static void pause_here() { std::this_thread::yield(); }

template <typename T> struct Runner {
    static std::vector<std::future<T>>& futures() { static auto* f = new std::vector<std::future<T>>(4096); return *f; }
    static intp::DedicatedThreadPool<T>& pool() { return intp::DedicatedThreadPool<T>::get_instance(size_t(prog.nw)); }
    struct Fn {
        int t;
        T operator()() {
            ex::log("{\"e\":\"Start\",\"t\":%d}", t);
            const Task& k = prog.tasks[size_t(t)];
            if (k.kind == 'y') { pause_here(); pause_here(); }
            for (int c : k.kids) submit(c);
            if (k.kind == 'x' || k.kind == 'X') {
                ex::log("{\"e\":\"Ended\",\"t\":%d,\"r\":\"x%d\"}", t, k.val);
                finished.fetch_add(1, std::memory_order_relaxed);
                if (k.kind == 'X') throw std::runtime_error(std::to_string(k.val));
                throw Boom{k.val};
            }
            ex::log("{\"e\":\"Ended\",\"t\":%d,\"r\":\"v%d\"}", t, std::is_void<T>::value ? 0 : k.val);
            finished.fetch_add(1, std::memory_order_relaxed);
            return Val<T>::make(k.val);
        }
    };
    static void submit(int t) {
        submitted.fetch_add(1, std::memory_order_relaxed);
        ex::log("{\"e\":\"SubBegin\",\"t\":%d}", t);
        futures()[size_t(t)] = pool().queue_task(Fn{t});
        ex::log("{\"e\":\"SubEnd\",\"t\":%d}", t);
    }
    static std::string result(std::future<T>& f) {
        try {
            int v = Val<T>::get(f);
            return "v" + std::to_string(v);
        } catch (const Boom& b) {
            return "x" + std::to_string(b.v);
        } catch (const std::future_error& e) {
            return e.code() == std::make_error_code(std::future_errc::broken_promise) ? "broken" : "future_error";
        } catch (const std::runtime_error& e) {
            return std::string("x") + e.what();
        } catch (...) { return "other"; }
    }
    static void get(int t) {
        std::string r = result(futures()[size_t(t)]);
        ex::log("{\"e\":\"Get\",\"t\":%d,\"r\":\"%s\"}", t, r.c_str());
    }
    // wait until there is nothing left to do
    static void quiet() {
#ifdef FREE_RUNNING
        for (int k = 0; finished.load(std::memory_order_relaxed) < submitted.load(std::memory_order_relaxed); ++k) {
            std::this_thread::sleep_for(std::chrono::milliseconds(2));
            if (k > 10000) { ex::mem->sh.stuck = 4; _exit(3); }
        }
#else
        while (finished < submitted) {
            sched::idle();
            if (!sched::others_can_run() && finished < submitted) sched::stuck(4);
        }
#endif
        ex::log("{\"e\":\"Quiet\"}");
    }
    static void client(int c) {
        for (auto& o : prog.clients[size_t(c)]) {
            if (o.first == 's') submit(o.second);
            else if (o.first == 'g') get(o.second);
            else if (o.first == 'q') quiet();
            else if (o.first == 'y') pause_here();
        }
    }
    // runs after the pool is gone
    static void final() {
        int alive = 0;
#ifndef FREE_RUNNING
        alive = sched::alive();
        sched::off();
#endif
        ex::log("{\"e\":\"Down\",\"alive\":%d}", alive);
        auto& fs = futures();
        for (size_t t = 0; t < prog.tasks.size(); ++t) {
            if (!fs[t].valid()) continue;
            if (fs[t].wait_for(std::chrono::seconds(0)) != std::future_status::ready) {
                ex::log("{\"e\":\"Get\",\"t\":%d,\"r\":\"pending\"}", int(t));
                continue;
            }
            get(int(t));
        }
        ex::mem->over = 1;
        fflush(nullptr);
        if (!strcmp(getenv("REC_EXIT") ? getenv("REC_EXIT") : "", "")) _exit(0);
    }
    static void main() {
        ex::log("{\"e\":\"Up\"}");
        futures();
        atexit(final);
        pool();
        std::vector<std::thread> ts;
        for (size_t c = 1; c < prog.clients.size(); ++c) ts.emplace_back(client, int(c));
        if (!prog.clients.empty()) client(0);
        for (auto& t : ts) t.join();
        ex::log("{\"e\":\"Close\"}");
        exit(0);
    }
};

static void child() {
    if (prog.type == "i") Runner<int>::main();
    else if (prog.type == "v") Runner<void>::main();
    else Runner<std::unique_ptr<int>>::main();
}

int main(int argc, char** argv) {
    if (argc < 9) return 64;
    std::ifstream in(argv[1]);
    FILE* out = fopen(argv[2], "w");
    long nrand = atol(argv[3]), npct = atol(argv[4]), ndfs = atol(argv[5]), pre = atol(argv[6]), seed = atol(argv[7]);
    int patience = atoi(argv[8]);
    ex::mem = static_cast<ex::Mem*>(mmap(nullptr, sizeof(ex::Mem), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    long runs = 0, uncontrolled = 0, complete = 0, decisions = 0, kinds = 0;
    std::string line;
    auto go = [&](sched::Mode m, uint64_t s, long len, int depth, std::set<std::string>& seen) -> bool {
        int status = 0;
        int r = ex::once([&] {
#ifdef FREE_RUNNING
            (void)m; (void)s; (void)len; (void)depth;
#else
            sched::on(m, s, &ex::mem->sh, int(len), depth, m == sched::DFS ? 0 : int(s % 3), m == sched::RANDOM && s % 2 ? 40 : 0);
#endif
            child();
        }, status, patience);
        ++runs;
        decisions += ex::mem->sh.ndec;
        if (r == 2
#ifdef FREE_RUNNING
            && false
#endif
        ) { ++uncontrolled; return false; }
        if (r != 0) ex::mem->sh.stuck = 3;
        std::string t = ex::collect(status);
        if (seen.insert(t).second) {
            fprintf(out, "{\"e\":\"Reset\",\"id\":%d}\n%s", prog.id, t.c_str());
            ++kinds;
        }
        return !ex::mem->sh.stuck;
    };
    auto execute = [&] {
        std::set<std::string> seen;
        long unc0 = uncontrolled;
        long len = 0;
        for (long k = 0; k < nrand && uncontrolled < unc0 + 2; ++k) {
            bool ok = go(sched::RANDOM, uint64_t(seed * 1000003 + prog.id * 7919 + k), 100, 0, seen);
            len = std::max(len, long(ex::mem->sh.steps));
            if (!ok && uncontrolled == unc0) break;
        }
        for (long k = 0; k < npct && uncontrolled < unc0 + 2; ++k)
            if (!go(sched::PCT, uint64_t(seed * 1000003 + prog.id * 104729 + k), std::max(20L, len), 1 + int(k % 4), seen) && uncontrolled == unc0) break;
#ifndef FREE_RUNNING
        // all schedules with at most `pre` preemptions, in depth-first order
        std::vector<unsigned char> prefix;
        for (long k = 0; k < ndfs && uncontrolled < unc0 + 2; ++k) {
            auto& sh = ex::mem->sh;
            sh.nprefix = int(prefix.size());
            memcpy(sh.prefix, prefix.data(), prefix.size());
            bool ok = go(sched::DFS, 1, 0, 0, seen);
            sh.nprefix = 0;
            if (!ok) break;
            std::vector<int> cost(size_t(sh.ndec) + 1);
            for (int d = 0; d < sh.ndec; ++d) cost[size_t(d) + 1] = cost[size_t(d)] + (sh.cur[d] && sh.sel[d] ? 1 : 0);
            int d = sh.ndec - 1;
            for (; d >= 0; --d) {
                if (sh.sel[d] + 1 >= sh.nopt[d]) continue;
                if (cost[size_t(d)] + (sh.cur[d] ? 1 : 0) > pre) continue;
                break;
            }
            if (d < 0) { ++complete; break; }
            prefix.assign(sh.sel, sh.sel + d + 1);
            ++prefix[size_t(d)];
        }
#endif
    };
    bool have = false;
    while (std::getline(in, line)) {
        std::istringstream is(line);
        std::string w;
        is >> w;
        if (w == "S") {
            if (have) execute();
            prog = Program();
            size_t nt, nc;
            is >> prog.id >> prog.type >> prog.nw >> nc >> nt;
            prog.tasks.resize(nt);
            prog.clients.resize(nc);
            have = true;
        } else if (w == "K") {
            size_t t;
            is >> t;
            Task& k = prog.tasks.at(t);
            is >> k.kind >> k.val;
            int c;
            while (is >> c) k.kids.push_back(c);
        } else if (w == "C") {
            size_t c;
            is >> c;
            std::string o;
            while (is >> o) prog.clients.at(c).push_back({o[0], o.size() > 1 ? atoi(o.c_str() + 1) : 0});
        }
    }
    if (have) execute();
    fclose(out);
    printf("STATS runs=%ld uncontrolled=%ld complete=%ld decisions=%ld kinds=%ld\n", runs, uncontrolled, complete, decisions, kinds);
    return 0;
}
