// Recorder for the allocators and the small helpers.
#ifndef NOT_ALONE
#include "aligned-allocator.hpp"   // first: it has to stand on its own
#endif
#define INTP_STACK_ALLOCATOR
#include <complex>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <fstream>
#include <initializer_list>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include "util.hpp"
#include "Mesh.hpp"
#include "aligned-allocator.hpp"

extern "C" const char* __asan_default_options() { return "allocator_may_return_null=1:max_allocation_size_mb=4096"; }

static FILE* out;
static void emit(const std::string& s) { std::fputs(s.c_str(), out); std::fputc('\n', out); std::fflush(out); }
static std::string S(long v) { return std::to_string(v); }
static std::string B(bool v) { return v ? "true" : "false"; }
template <typename V> static std::string L(const V& v) {
    std::string s = "[";
    bool first = true;
    for (long x : v) { s += (first ? "" : ",") + S(x); first = false; }
    return s + "]";
}
struct In {
    std::istringstream is;
    explicit In(const std::string& l) : is(l) {}
    std::string w() { std::string s; is >> s; return s; }
    int i() { return std::atoi(w().c_str()); }
    std::vector<long> vals() { int n = i(); std::vector<long> v((std::size_t(n))); for (auto& x : v) x = i(); return v; }
};
struct Base { virtual ~Base() {} virtual void op(const std::string&) = 0; };

// element types: K components of type C, all equal
template <typename C, int K> struct El {
    C c[K];
    bool operator==(const El& o) const { return !std::memcmp(c, o.c, sizeof c); }
};
template <typename C, int K> static El<C, K> mk(long v, El<C, K>*) { El<C, K> e; for (auto& x : e.c) x = C(v); return e; }
template <typename C, int K> static long rd(const El<C, K>& e) {
    for (auto& x : e.c) if (!(x == e.c[0])) return -9999;
    return long(e.c[0]);
}
struct Amp { int x; Amp* operator&() { return nullptr; } const Amp* operator&() const { return nullptr; } };
struct Classy { int v; Classy() : v(41) {} };
static int copies = 0;
struct Track {
    long v;
    explicit Track(long v_) : v(v_) {}
    Track(const Track& o) : v(o.v) { ++copies; }
    Track(Track&& o) noexcept : v(o.v) { o.v = -1; }
};
struct Made { long v; Made(Track t, int& cnt) : v(t.v) { ++cnt; } Made(Track&& t) : v(t.v) {} };

template <typename Tr> static std::string addr(Tr* p) {
    auto a = reinterpret_cast<std::uintptr_t>(p);
    return "[" + S(long(a >> 24)) + "," + S(long(a & 0xffffff)) + "]";
}
template <std::size_t... I> static std::string seq(intp::util::index_sequence<I...>) { return L(std::vector<long>{long(I)...}); }
template <typename Q> static void seqEvent(long n) {
    emit("{\"e\":\"Seq\",\"n\":" + S(n) + ",\"vals\":" + seq(Q{}) + ",\"size\":" + S(long(Q::size)) + "}");
}
template <typename Q> static void trait(const char* t) {
    emit(std::string("{\"e\":\"Trait\",\"t\":\"") + t + "\",\"it\":" + B(intp::util::is_iterable<Q>::value) + ",\"ix\":" + B(intp::util::is_indexed<Q>::value) + "}");
}
static void fact(const char* n, bool ok) { emit(std::string("{\"e\":\"Static\",\"what\":\"") + n + "\",\"ok\":" + B(ok) + "}"); }
struct BadEnds { int begin(); int end(); };

template <typename T, intp::Alignment Al, bool Dflt> struct Sess : Base {
    using A = intp::AlignedAllocator<T, Al>;
    using Ch = intp::AlignedAllocator<char, Al>;
    using D = intp::util::default_init_allocator<T, A>;
    using VA = typename std::conditional<Dflt, D, A>::type;
    using Vec = std::vector<T, VA>;
    static const std::size_t CAP = 16;
    struct Blk { T* p; std::size_t n; };
    std::map<int, Blk> live;
    std::map<int, Vec> vecs;
    alignas(64) T buffer[CAP];
    intp::util::stack_allocator<T, CAP> stack;
    std::vector<Blk> pile;

    Sess() : buffer(), stack(buffer) {}
    ~Sess() override { A a; for (auto& b : live) a.deallocate(b.second.p, b.second.n); }
    static T make(long v) { return mk(v, static_cast<T*>(nullptr)); }
    static std::string read(const T* p, std::size_t n) {
        std::vector<long> r;
        for (std::size_t i = 0; i < n; ++i) r.push_back(rd(p[i]));
        return L(r);
    }
    static std::string al() { return ",\"align\":" + S(long(Al)); }

    void op(const std::string& line) override {
        In in(line);
        std::string c = in.w();
        if (c == "Alloc") {
            int b = in.i(), n = in.i();
            auto v = in.vals();
            int path = in.i();
            A a;
            Ch ch;
            T* p;
            if (path == 0) p = a.allocate(std::size_t(n));
            else if (path == 1) p = std::allocator_traits<A>::allocate(a, std::size_t(n));
            else if (path == 2) { A r(ch); p = r.allocate(std::size_t(n)); }
            else { typename std::allocator_traits<Ch>::template rebind_alloc<T> r(ch); p = r.allocate(std::size_t(n), live.empty() ? nullptr : live.begin()->second.p); }
            for (int i = 0; i < n; ++i) a.construct(p + i, make(v[std::size_t(i)]));
            live[b] = Blk{p, std::size_t(n)};
            emit("{\"e\":\"Alloc\",\"b\":" + S(b) + ",\"at\":" + addr(p) + ",\"bytes\":" + S(long(sizeof(T)) * n) + al() + ",\"natural\":" + S(long(alignof(T))) +
                 ",\"vals\":" + L(v) + ",\"got\":" + read(p, std::size_t(n)) + "}");
            all();
        } else if (c == "Free") {
            int b = in.i();
            Blk k = live[b];
            emit("{\"e\":\"Free\",\"b\":" + S(b) + ",\"vals\":" + read(k.p, k.n) + "}");
            A a;
            for (std::size_t i = 0; i < k.n; ++i) a.destroy(k.p + i);
            a.deallocate(k.p, k.n);
            live.erase(b);
            all();
        } else if (c == "Poke") {
            int b = in.i(), i = in.i();
            long v = in.i();
            live[b].p[i - 1] = make(v);
            emit("{\"e\":\"Poke\",\"b\":" + S(b) + ",\"i\":" + S(i) + ",\"v\":" + S(v) + "}");
            all();
        } else if (c == "Huge") {
            int path = in.i();
            A a;
            const std::size_t big = ~std::size_t(0);
            std::size_t n = path == 0 ? a.max_size() + 1 : path == 1 ? (sizeof(T) == 1 ? big : big / sizeof(T) + 1) : big;
            bool ref = false;
            T* p = nullptr;
            try { p = a.allocate(n); } catch (const std::bad_alloc&) { ref = true; }
            if (!ref && p) a.deallocate(p, n);
            emit("{\"e\":\"Huge\",\"refused\":" + B(ref) + "}");
        } else if (c == "VNew") {
            int v = in.i();
            auto x = in.vals();
            std::vector<T> t;
            for (long e : x) t.push_back(make(e));
            vecs[v] = Vec(t.begin(), t.end());
            vec("VNew", v, ",\"init\":" + L(x));
        } else if (c == "VResize") {
            int v = in.i(), n = in.i();
            long x = in.i();
            vecs[v].resize(std::size_t(n), make(x));
            vec("VResize", v, ",\"size\":" + S(n) + ",\"x\":" + S(x));
        } else if (c == "VPush") {
            int v = in.i();
            long x = in.i();
            vecs[v].push_back(make(x));
            vec("VPush", v, ",\"x\":" + S(x));
        } else if (c == "VCopy") {
            int v = in.i(), s = in.i(), path = in.i();
            const Vec& src = vecs[s];
            if (path == 0) { Vec t(src); vecs[v].swap(t); }
            else if (path == 1) vecs[v] = src;
            else if (path == 2) { Vec t(src), u(std::move(t)); vecs[v].swap(u); }
            else { Vec t(src); vecs[v] = std::move(t); }
            vec("VCopy", v, ",\"s\":" + S(s) + ",\"src\":" + read(vecs[s].data(), vecs[s].size()));
        } else if (c == "VSwap") {
            int v = in.i(), s = in.i();
            vecs[v].swap(vecs[s]);
            vec("VSwap", v, ",\"s\":" + S(s) + ",\"other\":" + read(vecs[s].data(), vecs[s].size()));
        } else if (c == "SPush") {
            auto x = in.vals();
            bool ok = true;
            T* p = nullptr;
            try { p = stack.allocate(x.size()); } catch (const std::bad_alloc&) { ok = false; }
            long off = ok ? long(p - buffer) : -1;
            bool inside = ok && off >= 0 && off + long(x.size()) <= long(CAP);
            if (inside) { for (std::size_t i = 0; i < x.size(); ++i) p[i] = make(x[i]); pile.push_back(Blk{p, x.size()}); }
            emit("{\"e\":\"SPush\",\"ok\":" + B(ok) + ",\"off\":" + S(off) + ",\"vals\":" + L(x) + "}");
            if (ok && !inside) { std::fclose(out); std::exit(0); }   // the trace ends with a step the specification rejects
            sall();
        } else if (c == "SPop") {
            if (!pile.empty()) { stack.deallocate(pile.back().p, pile.back().n); pile.pop_back(); }
            emit("{\"e\":\"SPop\"}");
            sall();
        } else if (c == "Construct") {
            auto x = in.vals();
            int path = in.i();
            if (path == 0) construct(intp::util::default_init_allocator<T>(), x);
            else if (path == 1) construct(D(), x);
            else construct(typename std::allocator_traits<intp::util::default_init_allocator<char, Ch>>::template rebind_alloc<T>(), x);
        } else if (c == "Static") statics();
        else if (c == "Dispatch") {
            In again(line);
            again.w();
            int n = again.i();
            auto x = again.vals();
            dispatch(n, x);
        } else if (c == "Range") {
            auto x = in.vals();
            std::vector<long> v(x.begin(), x.end()), g, cg;
            std::list<long> l(x.begin(), x.end());
            const std::list<long>& k = l;
            auto r = intp::util::get_range(v);
            for (auto i = r.first; i != r.second; ++i) g.push_back(*i);
            auto q = intp::util::get_range(k);
            for (auto i = q.first; i != q.second; ++i) cg.push_back(*i);
            for (auto i = r.first; i != r.second; ++i) *i = 7;
            bool wrote = true;
            for (long e : v) wrote = wrote && e == 7;
            emit("{\"e\":\"Range\",\"vals\":" + L(x) + ",\"got\":" + L(g) + ",\"cgot\":" + L(cg) + ",\"wrote\":" + B(wrote) + "}");
        } else std::exit(65);
    }
    void all() {
        std::string s;
        for (auto& b : live) s += (s.empty() ? "" : ",") + ("{\"b\":" + S(b.first) + ",\"vals\":" + read(b.second.p, b.second.n) + "}");
        emit("{\"e\":\"All\",\"bs\":[" + s + "]}");
    }
    void sall() {
        std::string s;
        for (auto& b : pile) s += (s.empty() ? "" : ",") + read(b.p, b.n);
        emit("{\"e\":\"SAll\",\"cap\":" + S(long(stack.capacity())) + ",\"vals\":[" + s + "]}");
    }
    void vec(const char* e, int v, const std::string& more) {
        Vec& x = vecs[v];
        emit(std::string("{\"e\":\"") + e + "\",\"v\":" + S(v) + more + ",\"n\":" + S(long(x.size())) + ",\"vals\":" + read(x.data(), x.size()) +
             ",\"at\":" + addr(x.data()) + al() + "}");
    }
    template <typename DA> void construct(DA a, const std::vector<long>& x) {
        using Tr = std::allocator_traits<DA>;
        T* p = Tr::allocate(a, x.size());
        for (std::size_t i = 0; i < x.size(); ++i) Tr::construct(a, p + i, make(x[i]));
        std::string args = read(p, x.size());
        std::vector<unsigned char> before(sizeof(T) * x.size());
        std::memcpy(before.data(), p, before.size());
        for (std::size_t i = 0; i < x.size(); ++i) Tr::construct(a, p + i);
        std::string plain = read(p, x.size());
        alignas(Classy) unsigned char mem[sizeof(Classy)];
        std::memset(mem, 0, sizeof mem);
        Classy* k = reinterpret_cast<Classy*>(mem);
        Tr::construct(a, k);
        copies = 0;
        alignas(Made) unsigned char mem2[sizeof(Made)];
        Made* m = reinterpret_cast<Made*>(mem2);
        int cnt = 0;
        Tr::construct(a, m, Track(x[0]), cnt);
        bool good = m->v == x[0] && cnt == 1;
        Tr::construct(a, m, Track(x[1]));
        good = good && m->v == x[1];
        A raw;
        std::allocator_traits<A>::construct(raw, m, Track(x[2]), cnt);
        good = good && m->v == x[2] && cnt == 2;
        alignas(64) unsigned char mem3[sizeof(T)];
        std::memset(mem3, 0x55, sizeof mem3);
        T* z = reinterpret_cast<T*>(mem3);
        std::allocator_traits<A>::construct(raw, z);      // the plain allocator value-initialises
        good = good && rd(*z) == 0;
        emit("{\"e\":\"Construct\",\"vals\":" + L(x) + ",\"args\":" + args + ",\"before\":" + args + ",\"plain\":" + plain + ",\"classy\":" + S(k->v) +
             ",\"copies\":" + S(copies) + "}");
        fact("arguments of construct", good);
        Tr::deallocate(a, p, x.size());
    }
    void statics() {
        namespace u = intp::util;
        A a;
        Ch ch;
        fact("equal alignment", (a == A(ch)) && !(a != ch) && (Ch(a) == a));
        intp::AlignedAllocator<T, intp::Alignment::SSE> s;
        intp::AlignedAllocator<T, intp::Alignment::AVX512> z;
        fact("unequal alignment", (a == s) == (Al == intp::Alignment::SSE) && (a != z) == (Al != intp::Alignment::AVX512) && !(s == z));
        fact("max_size", a.max_size() > (std::size_t(1) << 40) && a.max_size() <= ~std::size_t(0) / sizeof(T));
        Amp amp{1};
        const Amp camp{2};
        intp::AlignedAllocator<Amp, Al> aa;
        fact("address", aa.address(amp) == std::addressof(amp) && aa.address(camp) == std::addressof(camp));
        static T other[CAP];
        u::stack_allocator<T, CAP> s1(buffer), s2(buffer), s3(other);
        fact("stack allocators", s1 == s2 && !(s1 != s2) && s1 != s3 && !(s1 == s3) && s1.buffer() == buffer && s1.max_size() >= CAP && s1.address(other[3]) == other + 3);
        fact("rebind", std::is_same<typename std::allocator_traits<Ch>::template rebind_alloc<T>, A>::value &&
                           std::is_same<typename std::allocator_traits<D>::template rebind_alloc<char>, u::default_init_allocator<char, Ch>>::value);
        fact("remove_cvref", std::is_same<u::remove_cvref_t<const T&>, T>::value && std::is_same<u::remove_cvref_t<T&&>, T>::value &&
                                 std::is_same<u::remove_cvref_t<volatile T>, T>::value && std::is_same<u::remove_cvref_t<const T*>, const T*>::value);
        fact("lazy_conditional", std::is_same<typename u::lazy_conditional<true, std::vector, std::list, int>::type, std::vector<int>>::value &&
                                     std::is_same<typename u::lazy_conditional<false, std::vector, std::list, int>::type, std::list<int>>::value);
        trait<std::vector<T>>("vector"); trait<std::list<T>>("list"); trait<std::deque<T>>("deque"); trait<std::array<T, 3>>("array");
        trait<std::map<int, T>>("map"); trait<std::set<int>>("set"); trait<std::string>("string"); trait<double>("double"); trait<const std::vector<T>>("vector");
        trait<intp::Mesh<double, 2>>("mesh"); trait<T*>("pointer"); trait<std::pair<T*, T*>>("pair"); trait<std::initializer_list<T>>("init");
        trait<std::unique_ptr<T[]>>("unique"); trait<T>("plain"); trait<BadEnds>("badends"); trait<std::complex<double>>("complex");
        seqEvent<u::make_index_sequence<0>>(0); seqEvent<u::make_index_sequence<1>>(1); seqEvent<u::make_index_sequence<2>>(2);
        seqEvent<u::make_index_sequence<5>>(5); seqEvent<u::make_index_sequence<17>>(17); seqEvent<u::make_index_sequence_for<int, T, char>>(3);
        constexpr std::size_t k[] = {u::pow(std::size_t(3), 4u), u::pow(std::size_t(2), std::size_t(16)), u::pow(std::size_t(7), 1u), u::pow(std::size_t(5), 0u), u::pow(std::size_t(0), 0u)};
        const long kb[] = {3, 2, 7, 5, 0}, ke[] = {4, 16, 1, 0, 0};
        for (int i = 0; i < 5; ++i) emit("{\"e\":\"Pow\",\"b\":" + S(kb[i]) + ",\"x\":" + S(ke[i]) + ",\"r\":" + S(long(k[i])) + "}");
        for (int b = -3; b <= 6; ++b)
            for (unsigned e = 0; e <= 9; ++e) {
                emit("{\"e\":\"Pow\",\"b\":" + S(b) + ",\"x\":" + S(long(e)) + ",\"r\":" + S(u::pow(b, e)) + "}");
                emit("{\"e\":\"Pow\",\"b\":" + S(b) + ",\"x\":" + S(long(e)) + ",\"r\":" + S(long(u::pow(double(b), std::size_t(e)))) + "}");
            }
    }
    void dispatch(int n, const std::vector<long>& x) {
#ifndef NO_DISPATCH
        std::vector<long> idx, got;
        long written = 0;
        copies = 0;
        struct F {
            std::vector<long>&i, &g;
            void operator()(std::size_t k, Track& t) { i.push_back(long(k)); g.push_back(t.v); t.v = 1000; }
            void operator()(std::size_t k, Track&& t) { i.push_back(long(k)); g.push_back(t.v); Track u(std::move(t)); }
        } f{idx, got};
        std::vector<Track> a;
        for (long v : x) a.emplace_back(v);
        copies = 0;
        // even positions are passed as rvalues, odd ones as lvalues
        switch (n) {
            case 0: intp::util::dispatch_indexed(f); break;
            case 1: intp::util::dispatch_indexed(f, std::move(a[0])); break;
            case 2: intp::util::dispatch_indexed(f, std::move(a[0]), a[1]); break;
            case 3: intp::util::dispatch_indexed(f, std::move(a[0]), a[1], std::move(a[2])); break;
            case 4: intp::util::dispatch_indexed(F{idx, got}, std::move(a[0]), a[1], std::move(a[2]), a[3]); break;
            default: intp::util::dispatch_indexed(f, std::move(a[0]), a[1], std::move(a[2]), a[3], std::move(a[4])); break;
        }
        for (int i = 0; i < n; ++i) written += a[std::size_t(i)].v == (i % 2 ? 1000 : -1);
        emit("{\"e\":\"Dispatch\",\"n\":" + S(n) + ",\"vals\":" + L(x) + ",\"idx\":" + L(idx) + ",\"got\":" + L(got) + ",\"written\":" + S(written) +
             ",\"copies\":" + S(copies) + "}");
#endif
    }
};

template <typename T, intp::Alignment Al, bool D> static Base* mk2() { return new Sess<T, Al, D>; }
template <intp::Alignment Al> static Base* mk1(const std::string& k) {
    if (k == "1") return mk2<El<signed char, 1>, Al, false>();
    if (k == "8") return mk2<El<double, 1>, Al, false>();
    if (k == "9") return mk2<El<double, 1>, Al, true>();
    if (k == "12") return mk2<El<int, 3>, Al, true>();
    return mk2<El<double, 3>, Al, false>();
}
int main(int argc, char** argv) {
    if (argc < 3) return 64;
    std::ifstream in(argv[1]);
    out = std::fopen(argv[2], "w");
    if (!in || !out) return 64;
    std::unique_ptr<Base> s;
    std::string line;
    while (std::getline(in, line)) {
        if (line.empty()) continue;
        if (line[0] == 'S' && line[1] == ' ') {
            std::istringstream is(line);
            std::string c, id, key;
            is >> c >> id >> key;
            std::string sz = key.substr(1);
            s.reset();
            s.reset(key[0] == 'n' ? mk1<intp::Alignment::NORMAL>(sz) : key[0] == 's' ? mk1<intp::Alignment::SSE>(sz)
                    : key[0] == 'a' ? mk1<intp::Alignment::AVX>(sz) : mk1<intp::Alignment::AVX512>(sz));
            emit("{\"e\":\"Reset\",\"id\":" + id + ",\"cap\":16}");
        } else s->op(line);
    }
    s.reset();
    emit("{\"e\":\"End\"}");
    std::fclose(out);
    return 0;
}
