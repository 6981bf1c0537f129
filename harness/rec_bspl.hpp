// Recorder for B-splines built directly from knots and control points.
#ifndef REC_BSPL_HPP
#define REC_BSPL_HPP
#include "rec.hpp"
#include "BSpline.hpp"

namespace rec {

template <typename T, std::size_t D, std::size_t O, typename U>
struct Bspl : SessBase {
    using B = intp::BSpline<T, D, O, U>;
    using C = typename B::ControlPointContainer;
    std::map<int, std::unique_ptr<B>> bs;
    struct Ax { bool p; std::size_t m; std::vector<U> t; };

    static std::string list(const std::vector<U>& v) {
        std::string s = "[";
        for (std::size_t i = 0; i < v.size(); ++i) s += (i ? ",\"" : "\"") + num(double(v[i])) + "\"";
        return s + "]";
    }
    struct Make {
        std::unique_ptr<B>& out; const std::vector<Ax>& ax; const C& c; bool np;
        template <typename... Ps> void operator()(Ps... ps) const {
            std::array<bool, D> p{};
            for (std::size_t d = 0; d < D; ++d) p[d] = ax[d].p;
            if (np) out.reset(new B(c, ps...)); else out.reset(new B(p, c, ps...));
        }
    };
    template <std::size_t d, typename K, typename... Ps>
    typename std::enable_if<d == D>::type pack(const std::vector<Ax>&, bool, K&& k, Ps... ps) { k(ps...); }
    template <std::size_t d, typename K, typename... Ps>
    typename std::enable_if<(d < D)>::type pack(const std::vector<Ax>& ax, bool ptr, K&& k, Ps... ps) {
        const auto& t = ax[d].t;
        if (ptr) pack<d + 1>(ax, ptr, std::forward<K>(k), ps..., std::make_pair(t.data(), t.data() + t.size()));
        else pack<d + 1>(ax, ptr, std::forward<K>(k), ps..., std::make_pair(t.begin(), t.end()));
    }
    template <typename X> static auto exec(X&& x, std::string& r) -> void {
        try { r = vals<T>(x()); }
        catch (const std::exception&) { r = "[\"exception\"]"; }
    }

    void op(const std::string& line) override {
        Reader in(line);
        std::string c = in.w();
        if (c == "B") {
            int b = in.i();
            std::string how = in.w();
            std::vector<Ax> ax(D);
            std::string aj = "[";
            std::array<std::size_t, D> sz{};
            std::size_t N = 1;
            for (std::size_t d = 0; d < D; ++d) {
                ax[d].p = in.i() != 0;
                ax[d].m = std::size_t(in.i());
                std::size_t k = std::size_t(in.i());
                for (std::size_t i = 0; i < k; ++i) ax[d].t.push_back(static_cast<U>(in.d()));
                aj += std::string(d ? "," : "") + "{\"p\":" + (ax[d].p ? "true" : "false") + ",\"m\":" + std::to_string(ax[d].m) + ",\"t\":" + list(ax[d].t) + "}";
                sz[d] = ax[d].m;
                N *= sz[d];
            }
            aj += "]";
            C mesh{intp::MeshDimension<D>(sz)};
            std::vector<std::string> cj(Comp<T>::n, "[");
            std::vector<double> v(Comp<T>::n);
            for (std::size_t q = 0; q < N; ++q) {
                for (int k = 0; k < Comp<T>::n; ++k) v[k] = in.d();
                const T val = Comp<T>::make(v.data());
                std::array<std::size_t, D> ix{};
                for (std::size_t d = D, r = q; d-- > 0;) { ix[d] = r % sz[d]; r /= sz[d]; }
                mesh(ix) = val;
                for (int k = 0; k < Comp<T>::n; ++k) cj[k] += (q ? ",\"" : "\"") + num(Comp<T>::get(val, k)) + "\"";
            }
            std::string exc;
            try {
                if (how == "ctor" || how == "ctor_np" || how == "ctor_ptr") {
                    std::unique_ptr<B> n;
                    pack<0>(ax, how == "ctor_ptr", Make{n, ax, mesh, how == "ctor_np"});
                    bs[b] = std::move(n);
                } else {
                    if (how == "load") {
                        std::array<bool, D> p{};
                        for (std::size_t d = 0; d < D; ++d) p[d] = ax[d].p;
                        bs[b].reset(new B(p));
                    }
                    for (std::size_t d = 0; d < D; ++d) {
                        auto kn = ax[d].t;
                        if (d % 2) bs[b]->load_knots(d, std::move(kn)); else bs[b]->load_knots(d, kn);
                    }
                    bs[b]->load_ctrlPts(mesh);
                }
            } catch (const std::domain_error&) { exc = "domain_error"; }
              catch (const std::runtime_error&) { exc = "runtime_error"; }
              catch (const std::exception&) { exc = "exception"; }
            std::string cs = "[";
            for (std::size_t k = 0; k < cj.size(); ++k) cs += (k ? "," : "") + cj[k] + "]";
            cs += "]";
            bool fl = is_float<T>::value || std::is_same<U, float>::value;
            emit("{\"e\":\"B\",\"f\":" + std::to_string(b) + ",\"how\":\"" + how + "\",\"prec\":\"" + (fl ? "f" : "d") + "\",\"o\":" + std::to_string(O) +
                 ",\"ax\":" + aj + ",\"c\":" + cs + (exc.empty() ? "" : ",\"exc\":\"" + exc + "\"") + "}");
        } else if (c == "BInfo") {
            int b = in.i();
            const B& s = *bs[b];
            std::string aj = "[";
            for (std::size_t d = 0; d < D; ++d) {
                std::vector<U> t(s.knots_begin(d), s.knots_end(d));
                aj += std::string(d ? "," : "") + "{\"p\":" + (s.periodicity(d) ? "true" : "false") + ",\"lo\":\"" + num(double(s.range(d).first)) +
                      "\",\"hi\":\"" + num(double(s.range(d).second)) + "\",\"k\":" + std::to_string(s.knots_num(d)) + ",\"t\":" + list(t) + "}";
            }
            aj += "]";
            std::string cs;
#ifndef INTP_CELL_LAYOUT
            cs = ",\"c\":[";
            for (int k = 0; k < Comp<T>::n; ++k) {
                cs += k ? ",[" : "[";
                bool first = true;
                for (auto it = s.control_points().begin(); it != s.control_points().end(); ++it) {
                    cs += (first ? "\"" : ",\"") + num(Comp<T>::get(*it, k)) + "\"";
                    first = false;
                }
                cs += "]";
            }
            cs += "]";
#endif
            emit("{\"e\":\"BInfo\",\"f\":" + std::to_string(b) + ",\"o\":" + std::to_string(s.get_order()) + ",\"ax\":" + aj + cs + "}");
        } else if (c == "FCopy" || c == "FAssign" || c == "FMove" || c == "FMoveAssign") {
            int b = in.i(), g = in.i();
            if (c == "FCopy") { const B& src = *bs[g]; bs[b].reset(new B(src)); }
            else if (c == "FAssign") *bs[b] = *static_cast<const B*>(bs[g].get());
            else if (c == "FMove") bs[b].reset(new B(std::move(*bs[g])));
            else *bs[b] = std::move(*bs[g]);
            emit("{\"e\":\"" + c + "\",\"f\":" + std::to_string(b) + ",\"g\":" + std::to_string(g) + "}");
        } else if (c == "Q") {
            int b = in.i(), n = in.i();
            const B& s = *bs[b];
            std::string js;
            for (int j = 0; j < n; ++j) {
                std::string k = in.w();
                std::array<U, D> x{};
                std::array<std::size_t, D> h{}, d{};
                for (std::size_t e = 0; e < D; ++e) x[e] = static_cast<U>(in.d());
                for (std::size_t e = 0; e < D; ++e) h[e] = std::size_t(in.i());
                for (std::size_t e = 0; e < D; ++e) d[e] = std::size_t(in.i());
                std::string r;
                if (k == "v") {
                    std::array<double, D> xd{};
                    for (std::size_t e = 0; e < D; ++e) xd[e] = x[e];
                    exec([&] { return s(xd); }, r);
                } else if (k == "vh" || k == "pre") {
                    std::array<std::pair<U, std::size_t>, D> a;
                    for (std::size_t e = 0; e < D; ++e) a[e] = std::make_pair(x[e], h[e]);
#ifdef INTP_CELL_LAYOUT
                    if (k == "pre") exec([&] { auto p = s.pre_calc_coef(a); return p(s); }, r); else
#endif
                    exec([&] { return s(a); }, r);
                } else if (k == "d") {
                    std::array<std::pair<U, std::size_t>, D> a;
                    for (std::size_t e = 0; e < D; ++e) a[e] = std::make_pair(x[e], d[e]);
                    exec([&] { return s.derivative_at(a); }, r);
                } else if (k == "dh") {
                    std::array<std::tuple<U, std::size_t, std::size_t>, D> a;
                    for (std::size_t e = 0; e < D; ++e) a[e] = std::make_tuple(x[e], h[e], d[e]);
                    exec([&] { return s.derivative_at(a); }, r);
                } else std::exit(67);
                std::string xs = "[", ds = "[", hs = "[";
                for (std::size_t e = 0; e < D; ++e) {
                    xs += (e ? ",\"" : "\"") + num(double(x[e])) + "\"";
                    ds += (e ? "," : "") + std::to_string(k == "v" || k == "vh" || k == "pre" ? 0 : d[e]);
                    hs += (e ? "," : "") + std::to_string(h[e]);
                }
                js += std::string(j ? "," : "") + "{\"k\":\"" + k + "\",\"x\":" + xs + "],\"d\":" + ds + "],\"h\":" + hs + "],\"r\":" + r + "}";
            }
            emit("{\"e\":\"Q\",\"f\":" + std::to_string(b) + ",\"q\":[" + js + "]}");
        } else std::exit(66);
    }
};
template <typename T, std::size_t D, std::size_t O, typename U>
SessBase* make_bspl() { return new Bspl<T, D, O, U>(); }
struct Registrar { Registrar(const char* k, Factory f) { registry()[k] = f; } };
}  // namespace rec
#define REC_CAT2(a, b) a##b
#define REC_CAT(a, b) REC_CAT2(a, b)
#define REC_INST(key, T, D, O, U) \
    static const rec::Registrar REC_CAT(reg, __LINE__)(key, &rec::make_bspl<T, D, O, U>);
#endif
