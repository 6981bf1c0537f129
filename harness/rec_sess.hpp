// The session recorder for one instantiation of the library; a translation unit
// registers the instantiations it holds with REC_INST(key, T, D, O, U).
#ifndef REC_SESS_HPP
#define REC_SESS_HPP
#include "rec.hpp"
#include "Interpolation.hpp"

namespace rec {

template <typename T, std::size_t D, std::size_t O, typename U>
struct Sess : SessBase {
    using F = intp::InterpolationFunction<T, D, O, U>;
    using Tm = intp::InterpolationFunctionTemplate<T, D, O, U>;
    using M = intp::Mesh<T, D>;
    using Arr = std::array<U, D>;
    struct TSlot { std::vector<Axis> ax; std::unique_ptr<Tm> t; };
    std::map<int, TSlot> ts;
    std::map<int, std::unique_ptr<F>> fs;
    std::map<int, std::function<T(const F&)>> ps;
    std::string witness = "[]";
    Sess* parent = nullptr;
    int arm = -1;           // fault after arm/64 of the operations of the next construction
    void set_parent(SessBase* p) override { parent = dynamic_cast<Sess*>(p); }
    TSlot& slot(int t) {
        auto it = ts.find(t);
        if (it != ts.end()) return it->second;
        return parent ? parent->slot(t) : ts[t];
    }
    // functions and proxies of the parent may be read
    const F& fun(int f) {
        auto it = fs.find(f);
        return it == fs.end() && parent ? parent->fun(f) : *fs.at(f);
    }
    const std::function<T(const F&)>& proxy(int p) {
        auto it = ps.find(p);
        return it == ps.end() && parent ? parent->proxy(p) : ps.at(p);
    }

    static std::array<bool, D> pers(const std::vector<Axis>& ax) {
        std::array<bool, D> p{};
        for (std::size_t d = 0; d < D; ++d) p[d] = ax[d].p;
        return p;
    }
    // number of values to pass in along an axis
    static std::size_t count(const Axis& a) {
#ifdef INTP_PERIODIC_NO_DUMMY_POINT
        return a.n - (a.p ? 1 : 0);
#else
        return a.n;
#endif
    }
    static intp::MeshDimension<D> dims(const std::vector<Axis>& ax) {
        std::array<std::size_t, D> s{};
        for (std::size_t d = 0; d < D; ++d) s[d] = count(ax[d]);
        return intp::MeshDimension<D>(s);
    }

    // How the coordinates of the axes are handed over
    using Xs = std::vector<std::vector<U>>;
    struct VecP {
        const Xs& xs;
        explicit VecP(const Xs& x) : xs(x) {}
        std::pair<U, U> uni(const Axis& a) { return {static_cast<U>(a.lo), static_cast<U>(a.hi)}; }
        std::pair<typename std::vector<U>::const_iterator, typename std::vector<U>::const_iterator> non(std::size_t d) {
            return {xs[d].begin(), xs[d].end()};
        }
    };
#ifdef REC_ROUTES
    struct PtrP {
        const Xs& xs;
        explicit PtrP(const Xs& x) : xs(x) {}
        std::pair<float, float> uni(const Axis& a) { return {static_cast<float>(a.lo), static_cast<float>(a.hi)}; }
        std::pair<const U*, const U*> non(std::size_t d) { return {xs[d].data(), xs[d].data() + xs[d].size()}; }
    };
    struct ListP {
        std::vector<std::list<U>> ls;
        explicit ListP(const Xs& x) { for (auto& v : x) ls.emplace_back(v.begin(), v.end()); }
        std::pair<U, U> uni(const Axis& a) { return {static_cast<U>(a.lo), static_cast<U>(a.hi)}; }
        std::pair<typename std::list<U>::iterator, typename std::list<U>::iterator> non(std::size_t d) {
            return {ls[d].begin(), ls[d].end()};
        }
    };
    struct StreamP {
        std::vector<std::unique_ptr<std::istringstream>> is;
        explicit StreamP(const Xs& x) {
            for (auto& v : x) {
                std::ostringstream os;
                os.precision(17);
                for (auto xi : v) os << xi << ' ';
                is.emplace_back(new std::istringstream(os.str()));
            }
        }
        std::pair<U, U> uni(const Axis& a) { return {static_cast<U>(a.lo), static_cast<U>(a.hi)}; }
        std::pair<std::istream_iterator<U>, std::istream_iterator<U>> non(std::size_t d) {
            return {std::istream_iterator<U>(*is[d]), std::istream_iterator<U>()};
        }
    };
#endif
    // calls k(std::pair<..>...) with one pair per axis
    template <std::size_t d, typename Pol, typename K, typename... Ps>
    typename std::enable_if<d == D>::type ranges(const std::vector<Axis>&, Pol&, K&& k, Ps... ps) {
        k(ps...);
    }
    template <std::size_t d, typename Pol, typename K, typename... Ps>
    typename std::enable_if<(d < D)>::type ranges(const std::vector<Axis>& ax, Pol& pol, K&& k, Ps... ps) {
        if (ax[d].u) ranges<d + 1>(ax, pol, std::forward<K>(k), ps..., pol.uni(ax[d]));
        else ranges<d + 1>(ax, pol, std::forward<K>(k), ps..., pol.non(d));
    }
    template <typename Pol>
    void direct(std::unique_ptr<F>& n, const std::vector<Axis>& ax, const M& m, bool aper) {
        auto xs = coords(ax);
        Pol pol(xs);
        ranges<0>(ax, pol, MkF{n, ax, m, aper});
    }
    template <typename Pol>
    void templ(std::unique_ptr<F>& n, const std::vector<Axis>& ax, const M& m, bool aper) {
        auto xs = coords(ax);
        Pol pol(xs);
        std::unique_ptr<Tm> t;
        ranges<0>(ax, pol, MkT{t, ax, aper});
        n.reset(new F(t->interpolate(m)));
    }
    struct MkT {
        std::unique_ptr<Tm>& out; const std::vector<Axis>& ax; bool aper;
        template <typename... Ps> void operator()(Ps... ps) const {
            const auto n = dims(ax);
            const auto p = pers(ax);
            REC_LIB
            if (aper) out.reset(new Tm(n, ps...));
            else out.reset(new Tm(p, n, ps...));
        }
    };
    struct MkF {
        std::unique_ptr<F>& out; const std::vector<Axis>& ax; const M& m; bool aper;
        template <typename... Ps> void operator()(Ps... ps) const {
            const auto p = pers(ax);
            REC_LIB
            if (aper) out.reset(new F(m, ps...));
            else out.reset(new F(p, m, ps...));
        }
    };
    static bool all_aper(const std::vector<Axis>& ax) {
        for (auto& a : ax) if (a.p) return false;
        return true;
    }
    static std::vector<std::vector<U>> coords(const std::vector<Axis>& ax) {
        std::vector<std::vector<U>> xs;
        for (auto& a : ax) xs.push_back(std::vector<U>(a.x.begin(), a.x.end()));
        return xs;
    }

    static std::string prec() { return is_float<T>::value || std::is_same<U, float>::value ? "f" : "d"; }

    static std::string excname() {
        try { throw; }
        catch (const std::domain_error&) { return "domain_error"; }
        catch (const std::system_error&) { return "system_error"; }
        catch (const std::runtime_error&) { return "runtime_error"; }
        catch (const FaultError&) { return "fault"; }
        catch (const std::bad_alloc&) { return "bad_alloc"; }
        catch (const std::exception&) { return "exception"; }
        catch (...) { return "unknown"; }
    }

    // data: m1*..*mD*nc numbers, row-major, components of one value adjacent
    M mesh(const std::vector<Axis>& ax, const std::vector<double>& v) {
        M m(dims(ax));
        std::size_t tot = 1;
        for (auto& a : ax) tot *= count(a);
        for (std::size_t q = 0; q < tot; ++q) {
            std::array<std::size_t, D> idx{};
            std::size_t r = q, flat = 0;
            bool dummy = false;
            for (std::size_t d = D; d-- > 0;) { idx[d] = r % count(ax[d]); r /= count(ax[d]); }
            for (std::size_t d = 0; d < D; ++d) {
                std::size_t md = ax[d].n - (ax[d].p ? 1 : 0);
                if (idx[d] >= md) dummy = true;
                flat = flat * md + idx[d];
            }
            if (dummy) {
                // the redundant last value of a periodic axis is to be ignored
                double g[2] = {4096.5 + double(q), -777.25};
                m(idx) = Comp<T>::make(g);
            } else {
                m(idx) = Comp<T>::make(&v[flat * Comp<T>::n]);
            }
        }
        return m;
    }

    static std::string data_json(const std::vector<double>& v) {
        std::string s = "[";
        for (int c = 0; c < Comp<T>::n; ++c) {
            s += c ? ",[" : "[";
            for (std::size_t i = c; i < v.size(); i += Comp<T>::n) {
                if (i >= std::size_t(Comp<T>::n)) s += ",";
                T t = Comp<T>::make(&v[i - c]);
                s += "\"" + num(Comp<T>::get(t, c)) + "\"";
            }
            s += "]";
        }
        return s + "]";
    }

    static void assign(TSlot& a, TSlot& b, bool mv, std::true_type) {
        { REC_LIB if (mv) *a.t = std::move(*b.t); else *a.t = *b.t; }
        a.ax = b.ax;
    }
    static void assign(TSlot& a, TSlot& b, bool mv, std::false_type) {   // not assignable: replace
        if (&a == &b) return;
        { REC_LIB a.t.reset(mv ? new Tm(std::move(*b.t)) : new Tm(*b.t)); }
        a.ax = b.ax;
    }
    template <std::size_t... I>
    static T call(const F& f, const Arr& x, intp::util::index_sequence<I...>) { return f(x[I]...); }
    template <std::size_t... I>
    static T callat(const F& f, const Arr& x, intp::util::index_sequence<I...>) { return f.at(x[I]...); }
    template <std::size_t... I>
    static T dpair(const F& f, const Arr& x, const std::array<std::size_t, D>& r, intp::util::index_sequence<I...>) {
        return f.derivative(std::make_pair(x[I], r[I])...);
    }
    template <std::size_t... I>
    static T dpairat(const F& f, const Arr& x, const std::array<std::size_t, D>& r, intp::util::index_sequence<I...>) {
        return f.derivative_at(std::make_pair(x[I], r[I])...);
    }
    template <std::size_t... I>
    static T dlist(const F& f, const Arr& x, const std::array<std::size_t, D>& r, intp::util::index_sequence<I...>) {
        return f.derivative(x, static_cast<int>(r[I])...);
    }
    template <std::size_t... I>
    static T dlistat(const F& f, const Arr& x, const std::array<std::size_t, D>& r, intp::util::index_sequence<I...>) {
        return f.derivative_at(x, static_cast<int>(r[I])...);
    }

#ifdef REC_OOM
    bool oom_next = false;
    int oom_mode = 0;
    // every allocation of the operation fails once (later ones at growing distance)
    void op(const std::string& line) override {
        if (line[0] == 'O') { oom_next = true; oom_mode = std::atoi(line.c_str() + 2); return; }
        if (line[0] == 'W' && line[1] == ' ') { kept_witness = line.substr(2); return; }
        const bool go = oom_next;
        oom_next = false;
        auto& st = oom::st();
        for (long k = 0; go && k < 100000; k += 1 + k / 24) {
            st.left = k; st.lasting = oom_mode == 1; st.hit = false;
            witness = kept_witness;
            data_same = true;
            try { op1(line); st.left = -1; kept_witness = "[]"; return; }
            catch (const std::bad_alloc&) {}
            catch (const std::system_error&) {}
            st.left = -1;
            Reader in(line);
            std::string c = in.w(), a = in.w(), b = in.w(), how = c == "F" ? in.w() : "";
            const bool over = how == "into" || c == "TAssign" || c == "FAssign";   // an object is changed in place
            emit("{\"e\":\"Fail\",\"op\":\"" + c + "\",\"a\":" + a + ",\"how\":\"" + how + "\",\"hit\":" + (st.hit ? "true" : "false") + ",\"same\":" + (data_same ? "true" : "false") + "}");
            // what was being overwritten can be destroyed
            if (k % 3 == 1 && over && c[0] == 'F') op1("FDefault " + a);
            if (k % 3 == 1 && c == "TAssign") op1("TCopy " + a + " " + b);
        }
        witness = kept_witness;
        op1(line);
        kept_witness = "[]";
    }
    std::string kept_witness = "[]";
    bool data_same = true;
    void op1(const std::string& line) {
#else
    void op(const std::string& line) override {
#endif
        Reader in(line);
        std::string c = in.w();
        if (c == "W") { witness = line.substr(2); return; }
        if (c == "A") { arm = in.i(); return; }
        if (c == "T") {         // T t p u n lo hi | p u n x..
            int t = in.i();
            TSlot s;
            for (std::size_t d = 0; d < D; ++d) {
                Axis a;
                a.p = in.i(); a.u = in.i(); a.n = std::size_t(in.i());
                if (a.u) { a.lo = U(in.d()); a.hi = U(in.d()); }
                else { a.lo = a.hi = 0; for (std::size_t i = 0; i < a.n; ++i) a.x.push_back(U(in.d())); }
                s.ax.push_back(a);
            }
            std::string err;
            auto xs = coords(s.ax);
            try { VecP pol(xs); ranges<0>(s.ax, pol, MkT{s.t, s.ax, all_aper(s.ax) && t % 2 == 0}); }
            catch (...) { err = excname(); }
            rethrow(err);
            emit("{\"e\":\"T\",\"t\":" + std::to_string(t) + ",\"ax\":" + axes_json(s.ax, int(O)) +
                 ",\"prec\":\"" + prec() + "\"" + (err.empty() ? "" : ",\"exc\":\"" + err + "\"") + "}");
            ts[t] = std::move(s);
#ifdef REC_ROUTES
        } else if (c == "X") {  // attempt: X how (p u n lo hi | p u n k x..)..
            std::string how = in.w();
            TSlot s;
            for (std::size_t d = 0; d < D; ++d) {
                Axis a;
                a.p = in.i(); a.u = in.i(); a.n = std::size_t(in.i());
                a.lo = a.hi = 0;
                if (a.u) { a.lo = U(in.d()); a.hi = U(in.d()); }
                else { std::size_t k = std::size_t(in.i()); for (std::size_t i = 0; i < k; ++i) a.x.push_back(U(in.d())); }
                s.ax.push_back(a);
            }
            std::size_t N = 1;
            for (auto& a : s.ax) N *= a.n - (a.p ? 1 : 0);
            std::vector<double> v(N * Comp<T>::n);
            for (std::size_t i = 0; i < v.size(); ++i) v[i] = double(i % 7) - 3;
            std::string r = "ok";
            bool aper = all_aper(s.ax) && how.back() == '0';
            if (how.back() == '0') how.pop_back();
            try {
                std::unique_ptr<F> n;
                if (how == "T") { auto xs = coords(s.ax); VecP pol(xs); ranges<0>(s.ax, pol, MkT{s.t, s.ax, aper}); }
                else if (how == "direct") direct<VecP>(n, s.ax, mesh(s.ax, v), aper);
                else if (how == "direct_ptr") direct<PtrP>(n, s.ax, mesh(s.ax, v), aper);
                else if (how == "direct_list") direct<ListP>(n, s.ax, mesh(s.ax, v), aper);
                else if (how == "direct_stream") direct<StreamP>(n, s.ax, mesh(s.ax, v), aper);
                else if (how == "templ_list") templ<ListP>(n, s.ax, mesh(s.ax, v), aper);
                else if (how == "templ_stream") templ<StreamP>(n, s.ax, mesh(s.ax, v), aper);
                else route1d(0, how, s, v, std::integral_constant<bool, D == 1>{});
            } catch (...) { r = excname(); }
            std::string aj;
            for (std::size_t d = 0; d < D; ++d) {
                const Axis& a = s.ax[d];
                std::string xl;
                for (std::size_t i = 0; i < a.x.size(); ++i) xl += (i ? ",\"" : "\"") + num(a.x[i]) + "\"";
                aj += std::string(d ? "," : "") + "{\"p\":" + (a.p ? "true" : "false") + ",\"u\":" + (a.u ? "true" : "false") + ",\"n\":" + std::to_string(a.n) +
                      ",\"x\":[" + xl + "]}";
            }
            emit("{\"e\":\"X\",\"how\":\"" + how + "\",\"o\":" + std::to_string(O) + ",\"ax\":[" + aj + "],\"r\":\"" + r + "\"}");
#endif
        } else if (c == "TAssign" || c == "TMoveAssign") {
            int t = in.i(), s = in.i();
            assign(ts[t], ts[s], c == "TMoveAssign", std::integral_constant<bool, std::is_copy_assignable<Tm>::value && std::is_move_assignable<Tm>::value>{});
            emit("{\"e\":\"" + c + "\",\"t\":" + std::to_string(t) + ",\"s\":" + std::to_string(s) + "}");
        } else if (c == "TCopy" || c == "TMove") {
            int t = in.i(), s = in.i();
            TSlot n;
            n.ax = slot(s).ax;
            if (c == "TCopy") { const Tm& src = *slot(s).t; REC_LIB n.t.reset(new Tm(src)); }
            else { Tm& src = *ts[s].t; REC_LIB n.t.reset(new Tm(std::move(src))); }
            ts[t] = std::move(n);
            emit("{\"e\":\"" + c + "\",\"t\":" + std::to_string(t) + ",\"s\":" + std::to_string(s) + "}");
        } else if (c == "TDel") {
            int t = in.i();
            ts.erase(t);
            emit("{\"e\":\"TDel\",\"t\":" + std::to_string(t) + "}");
        } else if (c == "F") {  // F f t how N values..
            int f = in.i(), t = in.i();
            std::string how = in.w();
            std::size_t N = std::size_t(in.i());
            std::vector<double> v;
            for (std::size_t i = 0; i < N; ++i) v.push_back(in.d());
            std::string w = witness;
            witness = "[]";
            fill(f, t, how, v, w);
        } else if (c == "FDefault") {
            int f = in.i();
            { auto& slot = fs[f]; REC_LIB slot.reset(new F()); }
            emit("{\"e\":\"FDefault\",\"f\":" + std::to_string(f) + "}");
        } else if (c == "FCopy" || c == "FMove" || c == "FAssign" || c == "FMoveAssign") {
            int f = in.i(), g = in.i();
            if (c == "FCopy") { const F& src = fun(g); std::unique_ptr<F> n; { REC_LIB n.reset(new F(src)); } fs[f] = std::move(n); }
            else if (c == "FMove") { F& src = *fs[g]; std::unique_ptr<F> n; { REC_LIB n.reset(new F(std::move(src))); } fs[f] = std::move(n); }
            else if (c == "FAssign") { const F& src = fun(g); F& dst = *fs[f]; REC_LIB dst = src; }
            else { F& src = *fs[g]; F& dst = *fs[f]; REC_LIB dst = std::move(src); }
            emit("{\"e\":\"" + c + "\",\"f\":" + std::to_string(f) + ",\"g\":" + std::to_string(g) + "}");
        } else if (c == "FDel") {
            int f = in.i();
            fs.erase(f);
            emit("{\"e\":\"FDel\",\"f\":" + std::to_string(f) + "}");
        } else if (c == "Q") {  // Q f n (kind x.. d..)..  kind node: i.. too
            int f = in.i();
            int n = in.i();
            std::string s = "{\"e\":\"Q\",\"f\":" + std::to_string(f) + ",\"q\":[";
            for (int k = 0; k < n; ++k) s += (k ? "," : "") + query(fun(f), in);
            emit(s + "]}");
        } else if (c == "Info") {
            int f = in.i();
            const F& g = fun(f);
            std::string s = "{\"e\":\"Info\",\"f\":" + std::to_string(f) + ",\"ax\":[";
            for (std::size_t d = 0; d < D; ++d)
                s += std::string(d ? "," : "") + "{\"p\":" + (g.periodicity(d) ? "true" : "false") +
                     ",\"u\":" + (g.uniform(d) ? "true" : "false") +
                     ",\"lo\":\"" + num(g.range(d).first) + "\",\"hi\":\"" + num(g.range(d).second) + "\"}";
            emit(s + "],\"o\":" + std::to_string(F::get_order()) + "}");
        } else if (c == "P") {  // P p t form x..
#ifdef INTP_CELL_LAYOUT
            int p = in.i(), t = in.i(), form = in.i();
            Arr x{};
            for (auto& xi : x) xi = U(in.d());
            const Tm& src = *slot(t).t;
            std::function<T(const F&)> made;
            {
                REC_LIB
#ifdef REC_ROUTES
                if (form >= 2) made = mkproxyi(src, x, form == 3, intp::util::make_index_sequence<D>{});
                else
#endif
                made = form ? mkproxy(src, x, intp::util::make_index_sequence<D>{}) : std::function<T(const F&)>(src.eval_proxy(x));
            }
            ps[p] = std::move(made);
            emit("{\"e\":\"P\",\"p\":" + std::to_string(p) + ",\"t\":" + std::to_string(t) + ",\"x\":" + arr(x) + "}");
#endif
        } else if (c == "PQ") { // PQ p f
#ifdef INTP_CELL_LAYOUT
            int p = in.i(), f = in.i();
            std::string r;
            try { const auto& pr = proxy(p); const F& g = fun(f); T v{}; { REC_LIB v = pr(g); } r = vals(v); }
            catch (...) { const std::string err = excname(); rethrow(err); r = "[\"" + err + "\"]"; }
            emit("{\"e\":\"PQ\",\"p\":" + std::to_string(p) + ",\"f\":" + std::to_string(f) + ",\"r\":" + r + "}");
#endif
        } else {
            std::exit(66);
        }
    }

#ifdef INTP_CELL_LAYOUT
    template <std::size_t... I>
    static std::function<T(const F&)> mkproxy(const Tm& t, const Arr& x, intp::util::index_sequence<I...>) {
        return t.eval_proxy(x[I]...);
    }
#ifdef REC_ROUTES
    // the first coordinate as short, or all as long
    template <std::size_t... I>
    static std::function<T(const F&)> mkproxyi(const Tm& t, const Arr& x, bool mixed, intp::util::index_sequence<I...>) {
        if (mixed && std::abs(x[0]) < 30000) return t.eval_proxy(typename std::conditional<I == 0, short, U>::type(x[I])...);
        return t.eval_proxy(static_cast<long>(x[I])...);
    }
#endif
#endif

    static std::string arr(const Arr& x) {
        std::string s = "[";
        for (std::size_t d = 0; d < D; ++d) s += (d ? ",\"" : "\"") + num(double(x[d])) + "\"";
        return s + "]";
    }

    std::string query(const F& f, Reader& in) {
        std::string k = in.w();
        Arr x{};
        std::array<std::size_t, D> r{}, idx{};
        for (auto& xi : x) xi = U(in.d());
        const std::string kind = k;
        const bool wild = k[0] == 'w';
        if (wild) k.erase(0, 1);
        if (k[0] == 'd') for (auto& ri : r) ri = std::size_t(in.i());
        if (k == "node") for (auto& i : idx) i = std::size_t(in.i());
        using IS = intp::util::make_index_sequence<D>;
        std::string res;
        try {
            REC_LIB
            T v = k == "call" || k == "node" ? f(x)
                : k == "callv" ? call(f, x, IS{})
                : k == "at" ? f.at(x)
                : k == "atv" ? callat(f, x, IS{})
                : k == "der" ? f.derivative(x, r)
                : k == "derp" ? dpair(f, x, r, IS{})
                : k == "derl" ? dlist(f, x, r, IS{})
                : k == "derat" ? f.derivative_at(x, r)
                : k == "deratp" ? dpairat(f, x, r, IS{})
                : k == "deratl" ? dlistat(f, x, r, IS{})
                : k == "spl" ? spl(f, x)
                : typed(f, k, x, r, IS{});
            res = wild ? "[\"returned\"]" : vals(v);
        } catch (...) {
            const std::string err = excname();
            rethrow(err);
            res = "[\"" + err + "\"]";
        }
        std::string s = "{\"k\":\"" + kind + "\",\"x\":" + arr(x) + ",\"d\":[";
        for (std::size_t d = 0; d < D; ++d) s += (d ? "," : "") + std::to_string(r[d]);
        s += "],\"i\":[";
        for (std::size_t d = 0; d < D; ++d) s += (d ? "," : "") + std::to_string(idx[d]);
        return s + "],\"r\":" + res + "}";
    }
#ifdef REC_ROUTES
    // the same coordinate in other arithmetic types
    template <std::size_t d> using Kind = typename std::conditional<d % 3 == 0, long double, typename std::conditional<d % 3 == 1, int, float>::type>::type;
    template <std::size_t... I>
    static T typed(const F& f, const std::string& k, const Arr& x, const std::array<std::size_t, D>& r, intp::util::index_sequence<I...>) {
        if (k == "int") return f(int(x[I])...);
        if (k == "intat") return f.at(int(x[I])...);
        if (k == "mix") return f(Kind<I>(x[I])...);
        if (k == "mixat") return f.at(Kind<I>(x[I])...);
        if (k == "dint") return f.derivative(std::make_pair(int(x[I]), int(r[I]))...);
        if (k == "dintat") return f.derivative_at(std::make_pair(int(x[I]), unsigned(r[I]))...);
        if (k == "dmix") return f.derivative(std::make_pair(Kind<I>(x[I]), long(r[I]))...);
        if (k == "dmixat") return f.derivative_at(std::make_pair(Kind<I>(x[I]), short(r[I]))...);
        std::exit(67);
    }
#else
    template <typename IS> static T typed(const F&, const std::string&, const Arr&, const std::array<std::size_t, D>&, IS) { std::exit(67); }
#endif
    static T spl(const F& f, const Arr& x) {   // underlying spline object
        std::array<double, D> c{};
        for (std::size_t d = 0; d < D; ++d) c[d] = double(x[d]);
        return f.spline()(c);
    }

    template <typename It>
    static std::vector<T> values(It b, It e) {
        std::vector<T> v;
        for (; b != e; b += Comp<T>::n) v.push_back(Comp<T>::make(&*b));
        return v;
    }
    // values to pass for a one-dimensional axis, with dummy point if needed
    static std::vector<T> values1(const Axis& a, const std::vector<double>& v) {
        auto r = values(v.begin(), v.end());
        if (count(a) > r.size()) { double g[2] = {4096.5, -777.25}; r.push_back(Comp<T>::make(g)); }
        return r;
    }

#ifdef REC_OOM
    void unsame() { data_same = false; }
    static void rethrow(const std::string& e) { if ((e == "bad_alloc" || e == "system_error") && oom::st().hit) throw std::bad_alloc(); }
#else
    static void unsame() {}
    static void rethrow(const std::string&) {}
#endif
    static bool same(const M& a, const M& b) {
        for (std::size_t d = 0; d < D; ++d) if (a.dim_size(d) != b.dim_size(d)) return false;
        return a.size() == b.size() && std::memcmp(a.data(), b.data(), a.size() * sizeof(T)) == 0;
    }
    void fill(int f, int t, const std::string& how, const std::vector<double>& v, const std::string& w) {
        TSlot& s = slot(t);
        std::string err;
        bool unchanged = true;
        const bool armed = std::is_same<T, Fault>::value && arm >= 0;
        if (armed) {    // count the operations first
            M m = mesh(s.ax, v);
            Fault::ops().store(0);
            { F tmp(s.t->interpolate(m)); }
            long n = Fault::ops().load();
            Fault::fired().store(0);
            Fault::left().store(n * arm / 64);
            arm = -1;
        }
        try {
            if (how == "new" || how == "into" || how == "move") {
                M m = mesh(s.ax, v);
                const M before = m;
                std::unique_ptr<F> n;
                try {
                    F* dst = how == "into" ? fs[f].get() : nullptr;
                    REC_LIB
                    if (how == "new") n.reset(new F(s.t->interpolate(m)));
                    else if (how == "into") s.t->interpolate(*dst, m);
                    else n.reset(new F(std::move(*s.t).interpolate(m)));
                } catch (...) { if (!same(before, m)) unsame(); throw; }
                if (n) fs[f] = std::move(n);
                if (!same(before, m)) unchanged = false;
            } else if (how == "mesh_rvalue") {
                M m = mesh(s.ax, v);
                std::unique_ptr<F> n;
                { REC_LIB n.reset(new F(s.t->interpolate(std::move(m)))); }
                fs[f] = std::move(n);
            } else if (how == "direct") {
                M m = mesh(s.ax, v);
                const M before = m;
                std::unique_ptr<F> n;
                direct<VecP>(n, s.ax, m, all_aper(s.ax) && f % 2 == 0);
                fs[f] = std::move(n);
                if (!same(before, m)) unchanged = false;
#ifdef REC_ROUTES
            } else if (how.compare(0, 7, "direct_") == 0 || how.compare(0, 6, "templ_") == 0) {
                M m = mesh(s.ax, v);
                std::unique_ptr<F> n;
                bool aper = all_aper(s.ax) && f % 2 == 0;
                if (how == "direct_ptr") direct<PtrP>(n, s.ax, m, aper);
                else if (how == "direct_list") direct<ListP>(n, s.ax, m, aper);
                else if (how == "direct_stream") direct<StreamP>(n, s.ax, m, aper);
                else if (how == "templ_ptr") templ<PtrP>(n, s.ax, m, aper);
                else if (how == "templ_list") templ<ListP>(n, s.ax, m, aper);
                else templ<StreamP>(n, s.ax, m, aper);
                fs[f] = std::move(n);
#endif
            } else {
                route1d(f, how, s, v, std::integral_constant<bool, D == 1>{});
            }
        } catch (...) { err = excname(); }
        rethrow(err);
        bool fired = armed && Fault::fired().load() != 0;
        if (armed) Fault::left().store(-1);
        emit("{\"e\":\"F\",\"f\":" + std::to_string(f) + ",\"t\":" + std::to_string(t) + ",\"how\":\"" + how +
             "\",\"data\":" + data_json(v) + ",\"c\":" + w + ",\"same\":" + (unchanged ? "true" : "false") +
             (armed ? std::string(",\"fired\":") + (fired ? "true" : "false") : std::string()) +
             (err.empty() ? "" : ",\"exc\":\"" + err + "\"") + "}");
    }
    void route1d(int, const std::string&, TSlot&, const std::vector<double>&, std::false_type) { std::exit(68); }
#ifndef REC_ROUTES
    void route1d(int, const std::string&, TSlot&, const std::vector<double>&, std::true_type) { std::exit(68); }
#else
    // a range whose ends have different types
    template <typename P> void mixed(std::unique_ptr<F>& n, const std::string& how, const Axis& a, std::vector<T>& y, P mp) {
        auto yr = std::make_pair(y.begin(), y.end());
        if (how[0] == 'f') { if (a.p) n.reset(new F(true, yr, mp)); else n.reset(new F(yr, mp)); }
        else if (how[0] == 'w' && how[1] == '1') n.reset(new F(intp::InterpolationFunction1D<O, T, U>(mp, yr, a.p)));
        else if (how[0] == 'w') { intp::InterpolationFunctionTemplate1D<O, T, U> t1(mp, count(a), a.p); n.reset(new F(t1.interpolate(yr))); }
        else if (a.p) { Tm t1(true, count(a), mp); n.reset(new F(t1.interpolate(yr))); }
        else { Tm t1(count(a), mp); n.reset(new F(t1.interpolate(yr))); }
    }
    void route1d(int f, const std::string& how, TSlot& s, const std::vector<double>& v, std::true_type) {
        const Axis& a = s.ax[0];
        std::vector<T> y = values1(a, v);
        std::list<T> yl(y.begin(), y.end());
        std::vector<U> x(a.x.begin(), a.x.end());
        std::unique_ptr<F> n;
        auto yr = std::make_pair(y.begin(), y.end());
        auto rng = std::make_pair(static_cast<U>(a.lo), static_cast<U>(a.hi));
        if (how == "t_iter") n.reset(new F(s.t->interpolate(std::make_pair(y.begin(), y.end()))));
        else if (how == "t_list") n.reset(new F(s.t->interpolate(std::make_pair(yl.begin(), yl.end()))));
        else if (how == "t_ptr") n.reset(new F(s.t->interpolate(std::make_pair(y.data(), y.data() + y.size()))));
        else if (how == "f1_iter" && a.u) n.reset(new F(a.p, yr, rng));
        else if (how == "f1_iter") n.reset(new F(a.p, yr, std::make_pair(x.begin(), x.end())));
        else if (how == "f1_noper" && a.u) n.reset(new F(yr, rng));
        else if (how == "f1_noper") n.reset(new F(yr, std::make_pair(x.begin(), x.end())));
        else if (how == "f1_list") {
            std::list<U> xl(x.begin(), x.end());
            n.reset(new F(a.p, std::make_pair(yl.begin(), yl.end()), std::make_pair(xl.begin(), xl.end())));
        } else if (how == "f1_stream") {
            std::ostringstream os;
            os.precision(17);
            for (auto xi : x) os << xi << ' ';
            std::istringstream is(os.str());
            n.reset(new F(a.p, yr, std::make_pair(std::istream_iterator<U>(is), std::istream_iterator<U>())));
        } else if (how == "f1_ptr") {
            const U* px = x.data();
            n.reset(new F(a.p, std::make_pair(y.data(), y.data() + y.size()), std::make_pair(px, px + x.size())));
        } else if (how == "f1_int") n.reset(new F(a.p, yr, std::make_pair(int(a.lo), int(a.hi))));
        else if (how == "wt1_int") { intp::InterpolationFunctionTemplate1D<O, T, U> t1(std::make_pair(int(a.lo), int(a.hi)), count(a), a.p); n.reset(new F(t1.interpolate(yr))); }
        else if (how.size() > 6 && how.substr(how.size() - 6) == "_mixlo") mixed(n, how, a, y, std::make_pair(int(a.lo), static_cast<U>(a.hi)));
        else if (how.size() > 6 && how.substr(how.size() - 6) == "_mixhi") mixed(n, how, a, y, std::make_pair(static_cast<U>(a.lo), long(a.hi)));
        else if (how == "f1_float") n.reset(new F(a.p, yr, std::make_pair(float(a.lo), float(a.hi))));
        else if (how == "w1" && a.u) n.reset(new F(intp::InterpolationFunction1D<O, T, U>(rng, yr, a.p)));
        else if (how == "w1") n.reset(new F(intp::InterpolationFunction1D<O, T, U>(std::make_pair(x.begin(), x.end()), yr, a.p)));
        else if (how == "w1_def") n.reset(new F(intp::InterpolationFunction1D<O, T, U>(yr, a.p)));
        else if (how == "w1_def_noarg") n.reset(new F(intp::InterpolationFunction1D<O, T, U>(yr)));
        else if (how == "wt1" && a.u) {
            intp::InterpolationFunctionTemplate1D<O, T, U> t1(rng, count(a), a.p);
            n.reset(new F(t1.interpolate(yr)));
        } else if (how == "wt1") {
            intp::InterpolationFunctionTemplate1D<O, T, U> t1(std::make_pair(x.begin(), x.end()), count(a), a.p);
            n.reset(new F(t1.interpolate(yr)));
        } else if (how == "wt1_def") {
            intp::InterpolationFunctionTemplate1D<O, T, U> t1(count(a), a.p);
            n.reset(new F(t1.interpolate(yr)));
        } else if (how == "tb") {   // bool, length, range overload
            if (a.u) { Tm t1(a.p, count(a), rng); n.reset(new F(t1.interpolate(yr))); }
            else { Tm t1(a.p, count(a), std::make_pair(x.begin(), x.end())); n.reset(new F(t1.interpolate(yr))); }
        } else if (how == "tb_noper") {
            if (a.u) { Tm t1(count(a), rng); n.reset(new F(t1.interpolate(yr))); }
            else { Tm t1(count(a), std::make_pair(x.begin(), x.end())); n.reset(new F(t1.interpolate(yr))); }
        } else std::exit(69);
        fs[f] = std::move(n);
    }
#endif
};

template <typename T, std::size_t D, std::size_t O, typename U>
SessBase* make_sess() { return new Sess<T, D, O, U>(); }
struct Registrar { Registrar(const char* k, Factory f) { registry()[k] = f; } };

}  // namespace rec
#define REC_CAT2(a, b) a##b
#define REC_CAT(a, b) REC_CAT2(a, b)
#define REC_INST(key, T, D, O, U) \
    static const rec::Registrar REC_CAT(reg, __LINE__)(key, &rec::make_sess<T, D, O, U>);
#endif
