// Recorder for interpolation sessions: executes a script of API calls against
// the library and logs one JSON event per call, with every argument and result
// written exactly.  One translation unit per instantiation (see rec_inst.cpp).
#ifndef REC_HPP
#define REC_HPP
#include <atomic>
#include <cmath>
#include <complex>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <system_error>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

namespace rec {

// exact text form of a floating point number: "m:e" = m * 2^e
inline std::string num(double v) {
    if (v != v) return "nan";
    if (v == std::numeric_limits<double>::infinity()) return "inf";
    if (v == -std::numeric_limits<double>::infinity()) return "-inf";
    if (v == 0) return "0:0";
    int e;
    double m = std::frexp(v, &e);
    long long k = static_cast<long long>(std::ldexp(m, 53));
    e -= 53;
    while (k % 2 == 0) { k /= 2; ++e; }
    return std::to_string(k) + ":" + std::to_string(e);
}

// user-defined vector value with component-wise arithmetic
struct Vec2 {
    double a, b;
    Vec2() : a(0), b(0) {}
    explicit Vec2(double s) : a(s), b(s) {}
    explicit Vec2(std::ptrdiff_t s) : a(double(s)), b(double(s)) {}
    Vec2(double a_, double b_) : a(a_), b(b_) {}
    Vec2& operator=(double s) { a = b = s; return *this; }
    Vec2& operator+=(const Vec2& o) { a += o.a; b += o.b; return *this; }
    Vec2& operator-=(const Vec2& o) { a -= o.a; b -= o.b; return *this; }
    Vec2& operator*=(double s) { a *= s; b *= s; return *this; }
    Vec2& operator/=(double s) { a /= s; b /= s; return *this; }
    friend Vec2 operator+(Vec2 x, const Vec2& y) { return x += y; }
    friend Vec2 operator-(Vec2 x, const Vec2& y) { return x -= y; }
    friend Vec2 operator*(double s, Vec2 x) { return x *= s; }
    friend Vec2 operator*(Vec2 x, double s) { return x *= s; }
    friend Vec2 operator*(const Vec2& x, const Vec2& y) { return Vec2(x.a * y.a, x.b * y.b); }
    friend Vec2 operator/(Vec2 x, double s) { return x /= s; }
    Vec2 operator-() const { return Vec2(-a, -b); }
    Vec2 operator+() const { return *this; }
    friend bool operator==(const Vec2& x, const Vec2& y) { return x.a == y.a && x.b == y.b; }
    friend bool operator!=(const Vec2& x, const Vec2& y) { return !(x == y); }
    friend std::ostream& operator<<(std::ostream& os, const Vec2& v) { return os << v.a << ',' << v.b; }
};

// value whose operations throw when the counter says so
struct FaultError {};
struct Fault {
    double v;
    static std::atomic<long>& left() { static std::atomic<long> n(-1); return n; }     // operations to go, < 0: never
    static std::atomic<long>& ops() { static std::atomic<long> n(0); return n; }
    static std::atomic<int>& fired() { static std::atomic<int> n(0); return n; }
    static void tick() {
        ops().fetch_add(1, std::memory_order_relaxed);
        if (left().load(std::memory_order_relaxed) < 0) return;
        if (left().fetch_sub(1, std::memory_order_relaxed) == 0) { fired().store(1, std::memory_order_relaxed); throw FaultError(); }
    }
    Fault() : v(0) {}
    Fault(double s) : v(s) {}
    Fault(const Fault& o) : v(o.v) { tick(); }
    Fault& operator=(const Fault& o) { tick(); v = o.v; return *this; }
    Fault& operator=(double s) { v = s; return *this; }
    Fault& operator+=(const Fault& o) { tick(); v += o.v; return *this; }
    Fault& operator-=(const Fault& o) { tick(); v -= o.v; return *this; }
    Fault& operator*=(double s) { tick(); v *= s; return *this; }
    Fault& operator/=(double s) { tick(); v /= s; return *this; }
    friend Fault operator+(const Fault& x, const Fault& y) { tick(); return Fault(x.v + y.v); }
    friend Fault operator-(const Fault& x, const Fault& y) { tick(); return Fault(x.v - y.v); }
    friend Fault operator*(double s, const Fault& x) { tick(); return Fault(x.v * s); }
    friend Fault operator*(const Fault& x, double s) { tick(); return Fault(x.v * s); }
    friend Fault operator*(const Fault& x, const Fault& y) { tick(); return Fault(x.v * y.v); }
    friend Fault operator/(const Fault& x, double s) { tick(); return Fault(x.v / s); }
    Fault operator-() const { tick(); return Fault(-v); }
    Fault operator+() const { return *this; }
    friend bool operator==(const Fault& x, const Fault& y) { return x.v == y.v; }
    friend bool operator!=(const Fault& x, const Fault& y) { return x.v != y.v; }
    friend std::ostream& operator<<(std::ostream& os, const Fault& x) { return os << x.v; }
};

template <typename T> struct Comp {  // real
    static constexpr int n = 1;
    static T make(const double* c) { return static_cast<T>(c[0]); }
    static double get(const T& v, int) { return static_cast<double>(v); }
};
template <typename R> struct Comp<std::complex<R>> {
    static constexpr int n = 2;
    static std::complex<R> make(const double* c) { return {static_cast<R>(c[0]), static_cast<R>(c[1])}; }
    static double get(const std::complex<R>& v, int i) { return i ? v.imag() : v.real(); }
};
template <> struct Comp<Vec2> {
    static constexpr int n = 2;
    static Vec2 make(const double* c) { return Vec2(c[0], c[1]); }
    static double get(const Vec2& v, int i) { return i ? v.b : v.a; }
};

template <> struct Comp<Fault> {
    static constexpr int n = 1;
    static Fault make(const double* c) { return Fault(c[0]); }
    static double get(const Fault& v, int) { return v.v; }
};

template <typename T> struct is_float : std::is_same<T, float> {};
template <> struct is_float<std::complex<float>> : std::true_type {};

template <typename T> std::string vals(const T& v) {
    std::string s = "[";
    for (int i = 0; i < Comp<T>::n; ++i) s += (i ? ",\"" : "\"") + num(Comp<T>::get(v, i)) + "\"";
    return s + "]";
}

struct Axis {
    bool p, u;
    std::size_t n;
    double lo, hi;
    std::vector<double> x;
};

inline std::string axes_json(const std::vector<Axis>& ax, int order) {
    std::string s = "[";
    for (std::size_t d = 0; d < ax.size(); ++d) {
        const Axis& a = ax[d];
        s += d ? "," : "";
        s += "{\"o\":" + std::to_string(order) + ",\"p\":" + (a.p ? "true" : "false") +
             ",\"u\":" + (a.u ? "true" : "false") + ",\"n\":" + std::to_string(a.n);
        if (a.u) s += ",\"lo\":\"" + num(a.lo) + "\",\"hi\":\"" + num(a.hi) + "\"";
        else {
            s += ",\"x\":[";
            for (std::size_t i = 0; i < a.x.size(); ++i) s += (i ? ",\"" : "\"") + num(a.x[i]) + "\"";
            s += "]";
        }
        s += "}";
    }
    return s + "]";
}

struct Reader {
    std::istringstream is;
    explicit Reader(const std::string& l) : is(l) {}
    std::string w() { std::string s; is >> s; return s; }
    int i() { return std::atoi(w().c_str()); }
    double d() { return std::strtod(w().c_str(), nullptr); }
};

// Memory exhaustion: within a window, in this thread, the left-th allocation fails
// (and, if lasting, all after it).
#ifdef REC_OOM
namespace oom {
struct State { bool on; long left; bool lasting; bool hit; };
inline State& st() { static thread_local State s = {false, -1, false, false}; return s; }
struct Window { Window() { st().on = true; } ~Window() { st().on = false; } };
}
#define REC_LIB ::rec::oom::Window rec_window_;
#else
#define REC_LIB
#endif

// One scenario; op() executes one script line.
struct SessBase {
    virtual ~SessBase() {}
    virtual void op(const std::string& line) = 0;
    virtual void set_parent(SessBase*) {}   // whose templates may be used
};
using Factory = SessBase* (*)();
std::map<std::string, Factory>& registry();
extern FILE* out;
extern long budget;   // lines left before an injected stop, unused by default
// a thread may collect its events in a string of its own
inline std::string*& sink() { static thread_local std::string* s = nullptr; return s; }
inline void emit(const std::string& s) {
    if (sink()) { *sink() += s; *sink() += '\n'; return; }
    std::fputs(s.c_str(), out); std::fputc('\n', out); std::fflush(out);
}

}  // namespace rec
#endif
