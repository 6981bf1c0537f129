#include "rec.hpp"
#include <fstream>
#include <iostream>
namespace rec {
std::map<std::string, Factory>& registry() { static std::map<std::string, Factory> r; return r; }
FILE* out;
long budget;
}
#ifdef REC_OOM
#include <new>
#include <sanitizer/lsan_interface.h>
namespace {
void* get(std::size_t n) {
    auto& s = rec::oom::st();
    if (s.on && s.left >= 0 && s.left-- == 0) {
        s.hit = true;
        if (s.lasting) s.left = 0;
        throw std::bad_alloc();
    }
    void* p = std::malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
}
void* operator new(std::size_t n) { return get(n); }
void* operator new[](std::size_t n) { return get(n); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
void operator delete[](void* p, std::size_t) noexcept { std::free(p); }
#include <cerrno>
#include <cstdlib>
#include <dlfcn.h>
// what the aligned allocator uses
extern "C" int posix_memalign(void** p, std::size_t al, std::size_t n) noexcept {
    auto& s = rec::oom::st();
    if (s.on && s.left >= 0 && s.left-- == 0) { s.hit = true; s.left = s.lasting ? 0 : -1; return ENOMEM; }
    static auto next = reinterpret_cast<int (*)(void**, std::size_t, std::size_t)>(dlsym(RTLD_NEXT, "posix_memalign"));
    return next(p, al, n);
}
#ifdef INTP_MULTITHREAD
#include <pthread.h>
extern "C" int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* x) {   // starting a thread may fail, too
    auto& s = rec::oom::st();
    if (s.on && s.left >= 0 && s.left-- == 0) { s.hit = true; s.left = s.lasting ? 0 : -1; return EAGAIN; }
    static auto next = reinterpret_cast<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>(dlsym(RTLD_NEXT, "pthread_create"));
    return next(t, a, f, x);
}
#endif
#endif
#ifdef REC_OOM
namespace rec {
// blocks nothing refers to after everything was destroyed
void left_over() {
    const bool lost = __lsan_do_recoverable_leak_check() != 0;
    emit(std::string("{\"e\":\"Live\",\"lost\":") + (lost ? "true}" : "false}"));
    if (lost) { std::fflush(out); std::_Exit(77); }
}
}
#endif
// usage: rec script out.ndjson
int main(int argc, char** argv) {
    if (argc < 3) return 64;
    std::ifstream in(argv[1]);
    rec::out = std::fopen(argv[2], "w");
    if (!in || !rec::out) return 64;
    std::unique_ptr<rec::SessBase> s;
    std::string line;
    while (std::getline(in, line)) {
        if (line.empty()) continue;
        if (line[0] == 'S') {   // S id key
            s.reset();
#ifdef REC_OOM
            rec::left_over();
#endif
            std::istringstream is(line);
            std::string c, id, key;
            is >> c >> id >> key;
            auto it = rec::registry().find(key);
            if (it == rec::registry().end()) return 65;
            s.reset(it->second());
            rec::emit("{\"e\":\"Reset\",\"id\":" + id + ",\"key\":\"" + key + "\"}");
        } else {
            s->op(line);
        }
    }
    s.reset();
#ifdef REC_OOM
    rec::left_over();
#endif
    rec::emit("{\"e\":\"End\"}");
    std::fclose(rec::out);
    return 0;
}
