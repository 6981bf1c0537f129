// Recorder for concurrent construction: several client threads execute
// sessions at once, under many schedules.  What each client records is put
// together in the order prologue, clients, epilogue: clients share nothing
// but templates they only read.
#include "explore.hpp"
#include "rec.hpp"
#include <fstream>
#include <thread>
namespace rec {
std::map<std::string, Factory>& registry() { static std::map<std::string, Factory> r; return r; }
FILE* out;
long budget;
}
struct Section { std::string key; std::vector<std::string> lines; };
struct Program { std::string id; Section pro, epi; std::vector<Section> clients; };
static Program prog;

static void work(rec::SessBase* s, const Section* c, std::string* log) {
    rec::sink() = log;
    for (auto& l : c->lines) s->op(l);
    rec::sink() = nullptr;
}
static void child() {
    auto& reg = rec::registry();
    std::string head;
    std::unique_ptr<rec::SessBase> main(reg.at(prog.pro.key)());
    work(main.get(), &prog.pro, &head);
    std::vector<std::unique_ptr<rec::SessBase>> ss;
    std::vector<std::string> logs(prog.clients.size());
    std::vector<std::thread> ts;
    for (auto& c : prog.clients) { ss.emplace_back(reg.at(c.key)()); ss.back()->set_parent(main.get()); }
    for (size_t c = 1; c < prog.clients.size(); ++c) ts.emplace_back(work, ss[c].get(), &prog.clients[c], &logs[c]);
    if (!prog.clients.empty()) work(ss[0].get(), &prog.clients[0], &logs[0]);
    for (auto& t : ts) t.join();
    for (auto& l : logs) head += l;
    std::string tail;
    work(main.get(), &prog.epi, &tail);
    // objects die before the process does
    ss.clear();
    main.reset();
#ifndef FREE_RUNNING
    sched::off();
#endif
    ex::text(head + tail);
    ex::mem->over = 1;
    _exit(0);
}

int main(int argc, char** argv) {
    if (argc < 7) return 64;
    std::ifstream in(argv[1]);
    FILE* out = fopen(argv[2], "w");
    long nrand = atol(argv[3]), npct = atol(argv[4]), seed = atol(argv[5]);
    int patience = atoi(argv[6]);
    const bool dense = argc > 7 && atoi(argv[7]);     // switch threads at plain accesses, too
    ex::mem = static_cast<ex::Mem*>(mmap(nullptr, sizeof(ex::Mem), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    long runs = 0, uncontrolled = 0, decisions = 0, kinds = 0;
    auto go = [&](sched::Mode m, uint64_t s, long len, int depth, std::set<std::string>& seen) -> bool {
        int status = 0;
        int r = ex::once([&] {
#ifndef FREE_RUNNING
            sched::on(m, s, &ex::mem->sh, int(len), depth, int(s % 3),
                      m != sched::RANDOM ? 0 : dense ? (s % 3 == 0 ? 20 : s % 3 == 1 ? 100 : 600) : s % 4 == 1 ? 400 : 0);
#else
            (void)dense; (void)m; (void)s; (void)len; (void)depth;
#endif
            child();
        }, status, patience);
        ++runs;
        decisions += ex::mem->sh.ndec;
#ifndef FREE_RUNNING
        if (r == 2) { ++uncontrolled; return false; }
#endif
        if (r != 0) ex::mem->sh.stuck = 3;
        std::string t = ex::collect(status);
        if (seen.insert(t).second) {
            fprintf(out, "{\"e\":\"Reset\",\"id\":%s}\n%s", prog.id.c_str(), t.c_str());
            ++kinds;
        }
        return !ex::mem->sh.stuck && WIFEXITED(status) && WEXITSTATUS(status) == 0;
    };
    auto execute = [&] {
        std::set<std::string> seen;
        long unc0 = uncontrolled, len = 0, id = atol(prog.id.c_str());
        for (long k = 0; k < nrand && uncontrolled < unc0 + 2; ++k) {
            bool ok = go(sched::RANDOM, uint64_t(seed * 1000003 + id * 7919 + k), 100, 0, seen);
            len = std::max(len, long(ex::mem->sh.steps));
            if (!ok && uncontrolled == unc0) break;
        }
        for (long k = 0; k < npct && uncontrolled < unc0 + 2; ++k)
            if (!go(sched::PCT, uint64_t(seed * 1000003 + id * 104729 + k), std::max(100L, len), 1 + int(k % 5), seen) && uncontrolled == unc0) break;
    };
    bool have = false;
    Section* cur = nullptr;
    std::string line;
    while (std::getline(in, line)) {
        std::istringstream is(line);
        std::string w;
        is >> w;
        if (w == "S") {
            if (have) execute();
            prog = Program();
            is >> prog.id;
            have = true;
        } else if (w == "PRO") { is >> prog.pro.key; cur = &prog.pro; }
        else if (w == "CLI") { prog.clients.emplace_back(); cur = &prog.clients.back(); is >> cur->key; }
        else if (w == "EPI") { cur = &prog.epi; cur->key = prog.pro.key; }
        else if (!line.empty()) cur->lines.push_back(line);
    }
    if (have) execute();
    fprintf(out, "{\"e\":\"End\"}\n");
    fclose(out);
    printf("STATS runs=%ld uncontrolled=%ld complete=0 decisions=%ld kinds=%ld\n", runs, uncontrolled, decisions, kinds);
    return 0;
}
