// Recorder for the mesh types: executes scripts of mesh operations.
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <list>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include "Mesh.hpp"
#include "aligned-allocator.hpp"

static FILE* out;
static void emit(const std::string& s) { std::fputs(s.c_str(), out); std::fputc('\n', out); std::fflush(out); }
static std::string n2s(double v) {
    if (!(v == std::floor(v)) || std::fabs(v) > 1e8) return "-99999999";
    return std::to_string((long)v);
}
static std::string u2s(std::size_t v) { return v > 100000000u ? "-1" : std::to_string((long)v); }
template <typename V> static std::string list(const V& v) {
    std::string s = "[";
    bool first = true;
    for (double x : v) { s += (first ? "" : ",") + n2s(x); first = false; }
    return s + "]";
}
template <typename V> static std::string ulist(const V& v) {
    std::string s = "[";
    bool first = true;
    for (std::size_t x : v) { s += (first ? "" : ",") + u2s(x); first = false; }
    return s + "]";
}
struct In {
    std::istringstream is;
    explicit In(const std::string& l) : is(l) {}
    std::string w() { std::string s; is >> s; return s; }
    int i() { return std::atoi(w().c_str()); }
};
// an element type that owns memory
struct Boxed {
    std::vector<int> v;
    Boxed() : v(3, 0) {}
    Boxed(int x) : v(3, x) {}
    operator double() const { return v.size() == 3 && v[0] == v[1] && v[1] == v[2] ? v[2] : 0.5; }
};
template <typename I> static std::string slist(const I& v) {
    std::string s = "[";
    bool first = true;
    for (std::size_t x : v) { s += (first ? "\"" : ",\"") + std::to_string(x) + "\""; first = false; }
    return s + "]";
}
template <std::size_t D> struct DimCheck {
    using Dm = intp::MeshDimension<D>;
    using Idx = std::array<std::size_t, D>;
    template <std::size_t... I> static Dm make(const Idx& d, intp::util::index_sequence<I...>) { return Dm(d[I]...); }
    template <std::size_t... I> static std::size_t each(const Dm& m, const Idx& i, intp::util::index_sequence<I...>) { return m.indexing_safe(i[I]...); }
    static std::size_t rd(In& in) { return std::size_t(std::strtoull(in.w().c_str(), nullptr, 10)); }
    static void run(In& in) {
        using IS = intp::util::make_index_sequence<D>;
        int how = in.i();
        Idx dims{};
        for (auto& x : dims) x = rd(in);
        Dm m(std::size_t(3));
        if (how == 0) m = Dm(dims);
        else if (how == 1) m = make(dims, IS{});
        else if (how == 2) m.resize(dims);
        else for (std::size_t d = 0; d < D; ++d) m.dim_size(d) = dims[d];
        const Dm k(m);
        Idx got{}, arr = k;
        for (std::size_t d = 0; d < D; ++d) got[d] = k.dim_size(d);
        std::vector<std::size_t> acc;
        for (std::size_t d = 0; d <= D; ++d) acc.push_back(k.dim_acc_size(d));
        std::string s = "{\"e\":\"Dim\",\"dims\":" + slist(dims) + ",\"got\":" + slist(got) + ",\"arr\":" + slist(arr) + ",\"size\":\"" + std::to_string(k.size()) +
                        "\",\"acc\":" + slist(acc) + ",\"at\":[";
        int n = in.i();
        for (int q = 0; q < n; ++q) {
            Idx i{};
            for (auto& x : i) x = rd(in);
            const std::size_t pos = k.indexing(i);
            s += std::string(q ? "," : "") + "{\"i\":" + slist(i) + ",\"pos\":\"" + std::to_string(pos) + "\",\"safe\":\"" + std::to_string(k.indexing_safe(i)) + "\",\"each\":\"" +
                 std::to_string(each(k, i, IS{})) + "\",\"back\":" + slist(k.dimwise_indices(pos)) + "}";
        }
        emit(s + "]}");
    }
};
struct Base { virtual ~Base() {} virtual void op(const std::string&) = 0; };

template <typename T, std::size_t D> struct Sess : Base {
    using A = std::allocator<T>;
    using B = intp::AlignedAllocator<T, intp::Alignment::AVX>;
    using MA = intp::Mesh<T, D, A>;
    using MB = intp::Mesh<T, D, B>;
    using Idx = std::array<std::size_t, D>;
    std::map<int, std::unique_ptr<MA>> as;   // odd slots
    std::map<int, std::unique_ptr<MB>> bs;   // even slots

    static Idx idx(In& in) { Idx r{}; for (auto& x : r) x = std::size_t(in.i()); return r; }
    static std::vector<T> vals(In& in) { std::vector<T> v(std::size_t(in.i())); for (auto& x : v) x = in.i(); return v; }

    template <std::size_t... I> static T& elem(MA& m, const Idx& i, intp::util::index_sequence<I...>) { return m(i[I]...); }
    template <std::size_t... I> static T& elem(MB& m, const Idx& i, intp::util::index_sequence<I...>) { return m(int(i[I])...); }
    template <std::size_t... I> static const T& elem(const MA& m, const Idx& i, intp::util::index_sequence<I...>) { return m(i[I]...); }
    template <std::size_t... I> static const T& elem(const MB& m, const Idx& i, intp::util::index_sequence<I...>) { return m(i[I]...); }
    using IS = intp::util::make_index_sequence<D>;

    template <typename M> static Idx sizes(const M& m) { Idx r{}; for (std::size_t d = 0; d < D; ++d) r[d] = m.dim_size(d); return r; }
    template <typename M> static std::vector<Idx> all(const M& m) {   // all indices, row-major
        Idx s = sizes(m), i{};
        std::vector<Idx> r;
        std::size_t tot = 1;
        for (auto x : s) tot *= x;
        for (std::size_t q = 0; q < tot; ++q) {
            r.push_back(i);
            for (std::size_t d = D; d-- > 0;) { if (++i[d] < s[d]) break; i[d] = 0; }
        }
        return r;
    }

    template <std::size_t... I> static MA* variadic(const Idx& d, intp::util::index_sequence<I...>) { return new MA(int(d[I])...); }
    static MA* ranged(const std::vector<T>& v, std::true_type) {
        std::list<T> l(v.begin(), v.end());
        return new MA(std::make_pair(l.begin(), l.end()));
    }
    static MA* ranged(const std::vector<T>&, std::false_type) { std::exit(66); }

    void op(const std::string& line) override {
        In in(line);
        std::string c = in.w();
        if (c == "New") {
            int m = in.i(), how = in.i();
            Idx d = idx(in);
            auto v = vals(in);
            std::unique_ptr<MA> n;
            if (how == 0) n.reset(new MA(intp::MeshDimension<D>(d)));
            else if (how == 1) n.reset(variadic(d, IS{}));
            else if (how == 2) n.reset(new MA(d[0]));
            else n.reset(ranged(v, std::integral_constant<bool, D == 1>{}));
            if (how != 3) { std::size_t q = 0; for (auto& i : all(*n)) (*n)(i) = v[q++]; }
            emit("{\"e\":\"New\",\"m\":" + std::to_string(m) + ",\"dims\":" + ulist(d) + ",\"size\":" + u2s(n->size()) + ",\"vals\":" + list(v) + "}");
            as[m] = std::move(n);
            return;
        }
        int m = in.i();
        if (c == "Dim") {
            if (m == 1) DimCheck<1>::run(in); else if (m == 2) DimCheck<2>::run(in); else if (m == 3) DimCheck<3>::run(in);
            else if (m == 4) DimCheck<4>::run(in); else DimCheck<5>::run(in);
        } else if (c == "Copy") {
            int s = in.i(), path = in.i();
            if (m % 2) copy(as[m], s, path); else copy(bs[m], s, path);
            emit("{\"e\":\"Copy\",\"m\":" + std::to_string(m) + ",\"s\":" + std::to_string(s) + "}");
        } else if (c == "Move") {
            int s = in.i();
            if (m % 2) { *as[m] = std::move(*as[s]); as.erase(s); } else { *bs[m] = std::move(*bs[s]); bs.erase(s); }
            emit("{\"e\":\"Move\",\"m\":" + std::to_string(m) + ",\"s\":" + std::to_string(s) + "}");
        } else if (m % 2) on(*as[m], m, c, in);
        else on(*bs[m], m, c, in);
    }
    template <typename M> void copy(std::unique_ptr<M>& dst, int s, int path) {
        std::unique_ptr<M> n;
        if (s % 2) { const MA& src = *as[s]; n.reset(new M(src)); }
        else { const MB& src = *bs[s]; n.reset(new M(src)); }
        if (path && dst) { const M& k = *n; *dst = k; } else dst = std::move(n);
    }

    template <typename M> void on(M& m, int slot, const std::string& c, In& in) {
        const M& k = m;
        std::string pre = "{\"e\":\"" + c + "\",\"m\":" + std::to_string(slot);
        if (c == "Set") {
            Idx i = idx(in);
            int v = in.i(), path = in.i();
            if (path) elem(m, i, IS{}) = v; else m(i) = v;
            emit(pre + ",\"i\":" + ulist(i) + ",\"v\":" + std::to_string(v) + "}");
        } else if (c == "SetLine") {
            std::size_t d = std::size_t(in.i());
            Idx i = idx(in);
            auto v = vals(in);
            int path = in.i();
            auto b = m.begin(d, i);
            auto e = m.end(d, i);
            std::size_t n = v.size();
            if (path == 0) { std::size_t q = 0; for (auto it = b; it != e && q < n; ++it) *it = v[q++]; }
            else if (path == 1) { std::size_t q = 0; for (auto it = b; q < n && !(it == e);) *it++ = v[q++]; }
            else if (path == 2) { std::size_t q = n; for (auto it = e; it != b && q > 0;) *--it = v[--q]; }
            else if (path == 3) { auto it = e - 1; for (std::size_t q = n; q-- > 0;) { if (q) *it-- = v[q]; else *it = v[q]; } }
            else if (path == 4) for (std::size_t q = 0; q < n; ++q) b[std::ptrdiff_t(q)] = v[q];
            else if (path == 5) for (std::size_t q = 0; q < n; ++q) *(b + std::ptrdiff_t(q)) = v[q];
            else if (path == 6) for (std::size_t q = 0; q < n; ++q) { auto it = b; it += std::ptrdiff_t(n - 1); it -= std::ptrdiff_t(n - 1 - q); *it.operator->() = v[q]; }
            else for (std::size_t q = 0; q < n; ++q) *(std::ptrdiff_t(q) + b) = v[q];
            emit(pre + ",\"d\":" + std::to_string(d) + ",\"i\":" + ulist(i) + ",\"vals\":" + list(v) + "}");
        } else if (c == "Resize") {
            Idx d = idx(in);
            std::size_t old = m.size();
            m.resize(d);
            std::vector<T> tail;
            for (std::size_t q = old; q < m.size(); ++q) tail.push_back(m.data()[q]);
            emit(pre + ",\"dims\":" + ulist(d) + ",\"size\":" + u2s(m.size()) + ",\"tail\":" + list(tail) + "}");
        } else if (c == "All") {
            int path = in.i();
            std::vector<T> v;
            if (path == 0) for (auto& i : all(m)) v.push_back(elem(m, i, IS{}));
            else if (path == 1) for (auto& i : all(m)) v.push_back(elem(k, i, IS{}));
            else if (path == 2) for (auto& i : all(m)) v.push_back(m(i));
            else if (path == 3) for (auto& i : all(m)) v.push_back(k(i));
            else if (path == 4) v.assign(k.begin(), k.end());
            else if (path == 5) v.assign(k.data(), k.data() + k.size());
            else for (auto& i : all(m)) if (i[D - 1] == 0) { auto e = k.end(D - 1, i); for (auto it = k.begin(D - 1, i); it < e; ++it) v.push_back(*it); }
            emit(pre + ",\"vals\":" + list(v) + "}");
        } else if (c == "Line") {
            std::size_t d = std::size_t(in.i());
            Idx i = idx(in);
            int path = in.i();
            std::vector<T> v;
            auto b = m.begin(d, i);
            auto e = m.end(d, i);
            auto kb = k.begin(d, i);
            auto ke = k.end(d, i);
            std::ptrdiff_t n = std::ptrdiff_t(m.dim_size(d));
            if (path == 0) for (; b != e; ++b) v.push_back(*b);
            else if (path == 1) for (; kb != ke; kb++) v.push_back(*kb);
            else if (path == 2) { while (ke != kb) v.push_back(*--ke); std::reverse(v.begin(), v.end()); }
            else if (path == 3) for (std::ptrdiff_t q = 0; q < n; ++q) v.push_back(kb[q]);
            else if (path == 4) for (std::ptrdiff_t q = 0; q < n; ++q) v.push_back(*(kb + q));
            else if (path == 5) for (std::ptrdiff_t q = n; q > 0; --q) v.push_back(*(ke - q));
            else if (path == 6) v.assign(kb, ke);
            else if (path == 7) for (std::ptrdiff_t q = 0; q < n; ++q) v.push_back((e - n)[q]);
            else { decltype(kb) cb = b, ce = e; for (; cb < ce; cb += 1) v.push_back(*cb.operator->()); }
            emit(pre + ",\"d\":" + std::to_string(d) + ",\"i\":" + ulist(i) + ",\"vals\":" + list(v) + "}");
        } else if (c == "Walk") {
            std::size_t d = std::size_t(in.i());
            Idx i = idx(in);
            int path = in.i();
            auto kb = k.begin(d, i);
            auto ke = k.end(d, i);
            if (path) { kb = m.begin(d, i); ke = m.end(d, i); }
            std::string s = "[";
            bool rel = true;
            std::ptrdiff_t pos = 0;
            for (auto it = kb; it != ke; ++it, ++pos) {
                s += (pos ? "," : "") + ulist(k.iter_indices(it));
                rel = rel && it >= kb && it < ke && kb <= it && ke > it && !(it < kb) && !(it >= ke) && (it == kb) == (pos == 0) && it - kb == pos &&
                      ke - it == std::ptrdiff_t(m.dim_size(d)) - pos && kb - it == -pos && it - ke == pos - std::ptrdiff_t(m.dim_size(d)) && it - it == 0 && ke > kb && ke >= kb && it != ke && !(it == ke) && it == kb + pos && it == pos + kb && it == ke - (ke - it);
                if (pos > 100000) break;
            }
            rel = rel && !(kb > ke) && !(ke < kb) && kb <= ke && !(kb < kb) && kb <= kb && kb >= kb;
            emit(pre + ",\"d\":" + std::to_string(d) + ",\"i\":" + ulist(i) + ",\"idx\":" + s + "],\"dist\":" + std::to_string(ke - kb) +
                 ",\"rel\":" + (rel ? "true" : "false") + "}");
        } else if (c == "Map") {
            std::string pos = "[", back = "[", back2 = "[", safe = "[";
            std::size_t q = 0;
            const auto& dim = k.dimension();
            for (auto& i : all(m)) {
                pos += (q ? "," : "") + u2s(dim.indexing(i));
                safe += (q ? "," : "") + u2s(dim.indexing_safe(i));
                back += (q ? "," : "") + ulist(dim.dimwise_indices(q));
                back2 += (q ? "," : "") + ulist(k.iter_indices(k.begin() + std::ptrdiff_t(q)));
                ++q;
            }
            std::vector<std::size_t> acc;
            for (std::size_t d = 0; d <= D; ++d) acc.push_back(dim.dim_acc_size(d));
            Idx asarr = dim;
            std::size_t nd = k.dimension().size();
            emit(pre + ",\"pos\":" + pos + "],\"safe\":" + safe + "],\"back\":" + back + "],\"back2\":" + back2 + "],\"dims\":" + ulist(asarr) +
                 ",\"size\":" + u2s(k.size() == nd ? nd : std::size_t(-1)) + ",\"acc\":" + ulist(acc) + "}");
        } else std::exit(66);
    }
};

template <typename T> static Base* make(char d) {
    switch (d) { case '1': return new Sess<T, 1>; case '2': return new Sess<T, 2>; case '3': return new Sess<T, 3>; default: std::exit(66); }
}
int main(int argc, char** argv) {
    if (argc < 3) return 64;
    std::ifstream in(argv[1]);
    out = std::fopen(argv[2], "w");
    if (!in || !out) return 64;
    std::unique_ptr<Base> s;
    std::string line;
    while (std::getline(in, line)) {
        if (line.empty()) continue;
        if (line[0] == 'S' && line[1] == ' ') {
            std::istringstream is(line);
            std::string c, id, key;
            is >> c >> id >> key;
            s.reset(key == "4d" ? static_cast<Base*>(new Sess<double, 4>) : key == "5d" ? static_cast<Base*>(new Sess<double, 5>)
                    : key[1] == 'd' ? make<double>(key[0]) : key[1] == 'i' ? make<int>(key[0]) : make<Boxed>(key[0]));
            emit("{\"e\":\"Reset\",\"id\":" + id + "}");
        } else s->op(line);
    }
    s.reset();
    emit("{\"e\":\"End\"}");
    std::fclose(out);
    return 0;
}
