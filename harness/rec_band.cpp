// Recorder for band matrices and their LU solver.
#include "rec.hpp"
#include <algorithm>
#include <deque>
#include <fstream>
#include "BandLU.hpp"
#include "aligned-allocator.hpp"
namespace rec {
FILE* out;
template <typename T> static std::string nums(const std::vector<T>& v) {
    std::string s = "[";
    for (std::size_t i = 0; i < v.size(); ++i) s += (i ? ",\"" : "\"") + num(double(v[i])) + "\"";
    return s + "]";
}
template <typename T> static std::vector<T> rd(Reader& in) { std::vector<T> v(std::size_t(in.i())); for (auto& x : v) x = T(in.d()); return v; }

template <typename Mat> struct Side {
    using LU = intp::BandLU<Mat>;
    std::map<int, std::unique_ptr<Mat>> ms;
    std::map<int, std::unique_ptr<LU>> ls;
};
struct Sess2 { virtual ~Sess2() {} virtual void op(const std::string&) = 0; };

template <typename T, typename Alloc> struct Sess : Sess2 {
    static std::string fl() { return sizeof(T) < sizeof(double) ? ",\"fl\":true" : ",\"fl\":false"; }

    using BM = intp::BandMatrix<T, Alloc>;
    using EM = intp::ExtendedBandMatrix<T, Alloc>;
    Side<BM> sb;
    Side<EM> se;
    bool ext = false;
    std::size_t n = 0, p = 0, q = 0;
    int growth = 1;

    bool stored(std::size_t i, std::size_t j) const {
        return (i <= j + p && j <= i + q) || (ext && (i + q >= n || j + p >= n));
    }
    void op(const std::string& line) override {
        Reader in(line);
        std::string c = in.w();
        if (c == "MNew") {
            int m = in.i();
            n = std::size_t(in.i()); p = std::size_t(in.i()); q = std::size_t(in.i()); ext = in.i();
            if (ext) mk(se, m); else mk(sb, m);
        } else if (ext) go(se, c, in); else go(sb, c, in);
    }
    template <typename S> void mk(S& s, int m) {
        using Mat = typename std::decay<decltype(*s.ms[0])>::type;
        s.ms[m].reset(new Mat(n, p, q));
        const Mat& k = *s.ms[m];
        emit("{\"e\":\"MNew\",\"m\":" + std::to_string(m) + ",\"n\":" + std::to_string(n) + ",\"p\":" + std::to_string(p) + ",\"q\":" + std::to_string(q) +
             ",\"x\":" + (ext ? "true" : "false") + ",\"dn\":" + std::to_string(k.dim()) + ",\"dp\":" + std::to_string(k.lower_band_width()) +
             ",\"dq\":" + std::to_string(k.upper_band_width()) + "}");
    }
    void side(EM& m, std::size_t i, std::size_t j, T v) {   // through the dedicated accessors
        if (j > i + q || i > j + p) m.side_bands_val(i, j) = v; else m.main_bands_val(i, j) = v;
    }
    void side(BM& m, std::size_t i, std::size_t j, T v) { m(i, j) = v; }
    T rside(const EM& m, std::size_t i, std::size_t j) { return j > i + q || i > j + p ? m.side_bands_val(i, j) : m.main_bands_val(i, j); }
    T rside(const BM& m, std::size_t i, std::size_t j) { return m(i, j); }

    template <typename Mat> void go(Side<Mat>& s, const std::string& c, Reader& in) {
        using LU = typename Side<Mat>::LU;
        if (c == "MFill") {
            int m = in.i(), order = in.i();
            auto v = rd<T>(in);
            Mat& M = *s.ms[m];
            std::vector<std::pair<std::size_t, std::size_t>> pos;
            for (std::size_t i = 0; i < n; ++i) for (std::size_t j = 0; j < n; ++j) if (stored(i, j)) pos.emplace_back(i, j);
            if (order == 0) for (std::size_t k = 0; k < pos.size(); ++k) M(pos[k].first, pos[k].second) = v[k];
            else if (order == 1) for (std::size_t k = pos.size(); k-- > 0;) M(pos[k].first, pos[k].second) = v[k];
            else for (std::size_t k = 0; k < pos.size(); ++k) side(M, pos[k].first, pos[k].second, v[k]);
            emit("{\"e\":\"MFill\",\"m\":" + std::to_string(m) + ",\"vals\":" + nums(v) + "}");
        } else if (c == "MSet") {
            int m = in.i();
            std::size_t i = std::size_t(in.i()), j = std::size_t(in.i());
            T v = T(in.d());
            (*s.ms[m])(i, j) = v;
            emit("{\"e\":\"MSet\",\"m\":" + std::to_string(m) + ",\"i\":" + std::to_string(i) + ",\"j\":" + std::to_string(j) + ",\"v\":\"" + num(v) + "\"}");
        } else if (c == "MDump") {
            int m = in.i(), path = in.i();
            const Mat& M = *s.ms[m];
            std::vector<T> v;
            for (std::size_t i = 0; i < n; ++i) for (std::size_t j = 0; j < n; ++j) if (stored(i, j)) v.push_back(path ? M(i, j) : rside(M, i, j));
            emit("{\"e\":\"MDump\",\"m\":" + std::to_string(m) + ",\"vals\":" + nums(v) + "}");
        } else if (c == "MMul") {
            int m = in.i();
            auto x = rd<T>(in);
            const Mat& M = *s.ms[m];
            std::vector<T> y = M * x;
            emit("{\"e\":\"MMul\",\"m\":" + std::to_string(m) + ",\"x\":" + nums(x) + ",\"y\":" + nums(y) + fl() + "}");
        } else if (c == "MCopy" || c == "MMove") {
            int m = in.i(), k = in.i();
            if (c == "MCopy") { const Mat& src = *s.ms[k]; s.ms[m].reset(new Mat(src)); }
            else { s.ms[m].reset(new Mat(std::move(*s.ms[k]))); s.ms.erase(k); }
            emit("{\"e\":\"" + c + "\",\"m\":" + std::to_string(m) + ",\"s\":" + std::to_string(k) + "}");
        } else if (c == "LU") {
            int l = in.i(), m = in.i();
            std::string how = in.w();
            growth = in.i();
            Mat& M = *s.ms[m];
            const Mat& K = M;
            if (how == "ctor_l") s.ls[l].reset(new LU(M));
            else if (how == "ctor_c") s.ls[l].reset(new LU(K));
            else if (how == "ctor_r") s.ls[l].reset(new LU(std::move(M)));
            else { s.ls[l].reset(new LU()); if (how == "comp_l") s.ls[l]->compute(M); else if (how == "comp_c") s.ls[l]->compute(K); else s.ls[l]->compute(std::move(M)); }
            if (how == "ctor_r" || how == "comp_r") s.ms.erase(m);
            emit("{\"e\":\"LU\",\"l\":" + std::to_string(l) + ",\"m\":" + std::to_string(m) + ",\"how\":\"" + how + "\"}");
        } else if (c == "LUCopy" || c == "LUMove") {
            int l = in.i(), k = in.i();
            if (c == "LUCopy") { const LU& src = *s.ls[k]; s.ls[l].reset(new LU(src)); }
            else { s.ls[l].reset(new LU(std::move(*s.ls[k]))); s.ls.erase(k); }
            emit("{\"e\":\"" + c + "\",\"l\":" + std::to_string(l) + ",\"s\":" + std::to_string(k) + "}");
        } else if (c == "Solve") {
            int l = in.i();
            std::string form = in.w();
            auto b = rd<T>(in), b2 = rd<T>(in);
            const LU& S = *s.ls[l];
            std::vector<T> x(b), x2;
            bool same = true;
            if (form == "vec") { std::vector<T> bb(b); x = S.solve(bb); same = bb == b; }
            else if (form == "cvec") { const std::vector<T> bb(b); x = S.solve(bb); same = bb == b; }
            else if (form == "vecr") x = S.solve(std::vector<T>(b));
            else if (form == "inpl") S.solve_in_place(x);
            else if (form == "ptr") { std::vector<T> t(n + 2, 5.5); std::copy(b.begin(), b.end(), t.begin() + 1); T* pt = t.data() + 1; S.solve_in_place(pt); x.assign(t.begin() + 1, t.end() - 1); same = t.front() == 5.5 && t.back() == 5.5; }
            else if (form == "it") S.solve_in_place(x.begin());
            else if (form == "deq") { std::deque<T> t(b.begin(), b.end()); auto r = S.solve(t); x.assign(r.begin(), r.end()); same = std::equal(b.begin(), b.end(), t.begin()); }
            else if (form == "deqit") { std::deque<T> t(b.begin(), b.end()); auto it = t.begin(); S.solve_in_place(it); x.assign(t.begin(), t.end()); same = it == t.begin(); }
            else if (form == "line") {
                intp::Mesh<T, 2> m(int(n), 3);
                for (std::size_t i = 0; i < n; ++i) { m(i, 0) = 7; m(i, 1) = b[i]; m(i, 2) = -7; }
                S.solve_in_place(m.begin(0, {0, 1}));
                for (std::size_t i = 0; i < n; ++i) { x[i] = m(i, 1); same = same && m(i, 0) == 7 && m(i, 2) == -7; }
            } else if (form == "vec2") {
                std::vector<Vec2> t;
                for (std::size_t i = 0; i < n; ++i) t.push_back(Vec2(double(b[i]), double(b2[i])));
                t = S.solve(t);
                for (std::size_t i = 0; i < n; ++i) { x[i] = T(t[i].a); x2.push_back(T(t[i].b)); }
            } else std::exit(66);
            auto ev = [&](const std::vector<T>& bb, const std::vector<T>& xx) {
                emit("{\"e\":\"Solve\",\"l\":" + std::to_string(l) + ",\"form\":\"" + form + "\",\"growth\":" + std::to_string(growth) +
                     ",\"b\":" + nums(bb) + ",\"x\":" + nums(xx) + ",\"same\":" + (same ? "true" : "false") + fl() + "}");
            };
            ev(b, x);
            if (!x2.empty()) ev(b2, x2);
        } else std::exit(66);
    }
};
}  // namespace rec
int main(int argc, char** argv) {
    using namespace rec;
    if (argc < 3) return 64;
    std::ifstream in(argv[1]);
    rec::out = std::fopen(argv[2], "w");
    if (!in || !rec::out) return 64;
    std::unique_ptr<Sess2> s;
    std::string line;
    while (std::getline(in, line)) {
        if (line.empty()) continue;
        if (line[0] == 'S' && line[1] == ' ') {
            std::istringstream is(line);
            std::string c, id, key;
            is >> c >> id >> key;
            if (key == "std") s.reset(new Sess<double, std::allocator<double>>);
            else if (key == "float") s.reset(new Sess<float, std::allocator<float>>);
            else s.reset(new Sess<double, intp::AlignedAllocator<double>>);
            emit("{\"e\":\"Reset\",\"id\":" + id + "}");
        } else s->op(line);
    }
    s.reset();
    emit("{\"e\":\"End\"}");
    return 0;
}
